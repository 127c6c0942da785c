package learn
def cf(x int) F = F(real(x))
// every instance is a map over the same variables
def okData(D spn.Dataset) bool = len(D) > 0 && (forall i int :: {D[i]} 0 <= i && i < len(D) ==> D[i] != nil)
def consistent(D spn.Dataset) bool = okData(D) && (forall i int :: {D[i]} 0 <= i && i < len(D) ==> dom(D[i]) == dom(D[0]))
def complete(D spn.Dataset) bool = okData(D) && (forall i int, v int :: {in(v, D[i])} 0 <= i && i < len(D) ==> in(v, D[i]) == (0 <= v && v < len(D[0])))
func ExtractInstance(v, D) (r)
  ensures fresh(r) && len(r) == len(D) && (forall i int :: {r[i]} 0 <= i && i < len(D) ==> r[i] == ite(in(v, D[i]), D[i][v], 0))
  loop 1
    invariant fresh(p) && len(p) == len(D)
    invariant forall i int :: {p[i]} 0 <= i && i < $k ==> p[i] == ite(in(v, D[i]), D[i][v], 0)
  endloop
func CompleteDataToMatrix(D) (M)
  requires complete(D)
  ensures fresh(M) && len(M) == len(D)
  ensures forall i int :: {M[i]} 0 <= i && i < len(D) ==> fresh(M[i]) && len(M[i]) == len(D[0])
  ensures forall i int, v int :: {M[i][v]} 0 <= i && i < len(D) && 0 <= v && v < len(D[0]) ==> M[i][v] == D[i][v]
  loop 1
    invariant fresh(M) && len(M) == n
    invariant forall i int :: {M[i]} 0 <= i && i < $k ==> fresh(M[i]) && len(M[i]) == m
    invariant forall i int, v int :: {M[i][v]} 0 <= i && i < $k && 0 <= v && v < m ==> M[i][v] == D[i][v]
  endloop
  loop 2
    invariant fresh(M) && len(M) == n && fresh(M[i]) && len(M[i]) == m
    invariant forall j int :: {M[j]} 0 <= j && j < n && j != i ==> M[j] == pre(M[j])
    invariant forall j int, v int :: {M[j][v]} 0 <= j && j < i && 0 <= v && v < m ==> M[j][v] == D[j][v]
    invariant forall v int :: {M[i][v]} {$done[v]} $done[v] ==> M[i][v] == D[i][v]
  endloop
func CompleteDataToMatrixF(D) (M)
  requires complete(D)
  ensures fresh(M) && len(M) == len(D)
  ensures forall i int :: {M[i]} 0 <= i && i < len(D) ==> fresh(M[i]) && len(M[i]) == len(D[0])
  ensures forall i int, v int :: {M[i][v]} 0 <= i && i < len(D) && 0 <= v && v < len(D[0]) ==> M[i][v] == F(real(D[i][v]))
  loop 1
    invariant fresh(M) && len(M) == n
    invariant forall i int :: {M[i]} 0 <= i && i < $k ==> fresh(M[i]) && len(M[i]) == m
    invariant forall i int, v int :: {M[i][v]} 0 <= i && i < $k && 0 <= v && v < m ==> M[i][v] == F(real(D[i][v]))
  endloop
  loop 2
    invariant fresh(M) && len(M) == n && fresh(M[i]) && len(M[i]) == m
    invariant forall j int :: {M[j]} 0 <= j && j < n && j != i ==> M[j] == pre(M[j])
    invariant forall j int, v int :: {M[j][v]} 0 <= j && j < i && 0 <= v && v < m ==> M[j][v] == F(real(D[j][v]))
    invariant forall v int :: {M[i][v]} {$done[v]} $done[v] ==> M[i][v] == F(real(D[i][v]))
  endloop

func DataToMatrix(D) (M, S)
  requires consistent(D)
  ghostvar inv [int]int
  ensures fresh(M) && fresh(S) && len(M) == len(D)
  ensures forall i int :: {M[i]} 0 <= i && i < len(D) ==> fresh(M[i]) && len(M[i]) == len(D[0])
  // the columns and the variables correspond one to one
  ensures forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < len(D[0]))
  ensures forall t int :: {S[t]} 0 <= t && t < len(D[0]) ==> in(S[t], D[0]) && inv[S[t]] == t
  ensures forall v int :: {inv[v]} {in(v, D[0])} in(v, D[0]) ==> 0 <= inv[v] && inv[v] < len(D[0]) && S[inv[v]] == v
  ensures forall i int, t int :: {M[i][t]} 0 <= i && i < len(D) && 0 <= t && t < len(D[0]) ==> M[i][t] == (D[i][S[t]])
  loop 1
    step inv = mval(Z)
    invariant fresh(M) && fresh(S) && fresh(Z) && Z != S && len(M) == n && $k >= 0 && inv == ite($k == 0, inv, mval(Z))
    invariant forall i int :: {M[i]} 0 <= i && i < $k ==> fresh(M[i]) && len(M[i]) == m
    invariant u == ite($k == 0, 0, m)
    invariant forall v int :: {in(v, Z)} in(v, Z) == ($k > 0 && in(v, D[0]))
    invariant forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < u)
    invariant forall t int :: {S[t]} 0 <= t && t < u ==> in(S[t], Z) && Z[S[t]] == t
    invariant forall v int :: {Z[v]} in(v, Z) ==> 0 <= Z[v] && Z[v] < u && S[Z[v]] == v
    invariant forall i int, t int :: {M[i][t]} 0 <= i && i < $k && 0 <= t && t < m ==> M[i][t] == (D[i][S[t]])
  endloop
  loop 2
    invariant fresh(M) && len(M) == n && fresh(M[i]) && len(M[i]) == m
    invariant forall j int :: {M[j]} 0 <= j && j < n && j != i ==> M[j] == pre(M[j])
    invariant forall v int :: {$done[v]} $done[v] ==> in(v, I)
    invariant u == ite(i == 0, $k, m)
    invariant forall v int :: {in(v, Z)} {$done[v]} in(v, Z) == ite(i == 0, $done[v], in(v, D[0]))
    invariant forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < u)
    invariant forall t int :: {S[t]} 0 <= t && t < u ==> in(S[t], Z) && Z[S[t]] == t
    invariant forall v int :: {Z[v]} in(v, Z) ==> 0 <= Z[v] && Z[v] < u && S[Z[v]] == v
    invariant forall t int :: {S[t]} i > 0 ==> S[t] == pre(S[t])
    invariant forall j int, t int :: {M[j][t]} 0 <= j && j < i && 0 <= t && t < m ==> M[j][t] == (D[j][S[t]])
    invariant forall v int :: {$done[v]} {M[i][Z[v]]} $done[v] ==> M[i][Z[v]] == (D[i][v])
  endloop

func DataToMatrixF(D) (M, S)
  requires consistent(D)
  ghostvar inv [int]int
  ensures fresh(M) && fresh(S) && len(M) == len(D)
  ensures forall i int :: {M[i]} 0 <= i && i < len(D) ==> fresh(M[i]) && len(M[i]) == len(D[0])
  // the columns and the variables correspond one to one
  ensures forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < len(D[0]))
  ensures forall t int :: {S[t]} 0 <= t && t < len(D[0]) ==> in(S[t], D[0]) && inv[S[t]] == t
  ensures forall v int :: {inv[v]} {in(v, D[0])} in(v, D[0]) ==> 0 <= inv[v] && inv[v] < len(D[0]) && S[inv[v]] == v
  ensures forall i int, t int :: {M[i][t]} 0 <= i && i < len(D) && 0 <= t && t < len(D[0]) ==> M[i][t] == cf(D[i][S[t]])
  loop 1
    step inv = mval(Z)
    invariant fresh(M) && fresh(S) && fresh(Z) && Z != S && len(M) == n && $k >= 0 && inv == ite($k == 0, inv, mval(Z))
    invariant forall i int :: {M[i]} 0 <= i && i < $k ==> fresh(M[i]) && len(M[i]) == m
    invariant u == ite($k == 0, 0, m)
    invariant forall v int :: {in(v, Z)} in(v, Z) == ($k > 0 && in(v, D[0]))
    invariant forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < u)
    invariant forall t int :: {S[t]} 0 <= t && t < u ==> in(S[t], Z) && Z[S[t]] == t
    invariant forall v int :: {Z[v]} in(v, Z) ==> 0 <= Z[v] && Z[v] < u && S[Z[v]] == v
    invariant forall i int, t int :: {M[i][t]} 0 <= i && i < $k && 0 <= t && t < m ==> M[i][t] == cf(D[i][S[t]])
  endloop
  loop 2
    invariant fresh(M) && len(M) == n && fresh(M[i]) && len(M[i]) == m
    invariant forall j int :: {M[j]} 0 <= j && j < n && j != i ==> M[j] == pre(M[j])
    invariant forall v int :: {$done[v]} $done[v] ==> in(v, I)
    invariant u == ite(i == 0, $k, m)
    invariant forall v int :: {in(v, Z)} {$done[v]} in(v, Z) == ite(i == 0, $done[v], in(v, D[0]))
    invariant forall t int :: {in(t, S)} in(t, S) == (0 <= t && t < u)
    invariant forall t int :: {S[t]} 0 <= t && t < u ==> in(S[t], Z) && Z[S[t]] == t
    invariant forall v int :: {Z[v]} in(v, Z) ==> 0 <= Z[v] && Z[v] < u && S[Z[v]] == v
    invariant forall t int :: {S[t]} i > 0 ==> S[t] == pre(S[t])
    invariant forall j int, t int :: {M[j][t]} 0 <= j && j < i && 0 <= t && t < m ==> M[j][t] == cf(D[j][S[t]])
    invariant forall v int :: {$done[v]} {M[i][Z[v]]} $done[v] ==> M[i][Z[v]] == cf(D[i][v])
  endloop

func MatrixToData(M) (D)
  ensures fresh(D) && len(D) == len(M)
  ensures forall i int :: {D[i]} 0 <= i && i < len(M) ==> D[i] != nil && fresh(D[i])
  ensures forall i int, v int :: {in(v, D[i])} {D[i][v]} 0 <= i && i < len(M) ==> in(v, D[i]) == (0 <= v && v < len(M[i])) && (in(v, D[i]) ==> D[i][v] == M[i][v])
  loop 1
    invariant fresh(D) && len(D) == len(M)
    invariant forall i int :: {D[i]} 0 <= i && i < $k ==> D[i] != nil && fresh(D[i])
    invariant forall i int, v int :: {in(v, D[i])} {D[i][v]} 0 <= i && i < $k ==> in(v, D[i]) == (0 <= v && v < len(M[i])) && (in(v, D[i]) ==> D[i][v] == M[i][v])
  endloop
  loop 2
    invariant fresh(D) && len(D) == len(M) && D[i] != nil && fresh(D[i])
    invariant forall j int :: {D[j]} 0 <= j && j < len(M) && j != i ==> D[j] == pre(D[j])
    invariant forall j int, v int :: {in(v, D[j])} {D[j][v]} 0 <= j && j < i ==> in(v, D[j]) == (0 <= v && v < len(M[j])) && (in(v, D[j]) ==> D[j][v] == M[j][v])
    invariant forall v int :: {in(v, D[i])} {D[i][v]} in(v, D[i]) == (0 <= v && v < $k) && (in(v, D[i]) ==> D[i][v] == M[i][v])
  endloop
func ReflectScope(Sc) (r)
  ensures fresh(r) && (forall u int :: {in(u, r)} {r[u]} in(u, r) == in(u, Sc) && (in(u, r) ==> r[u] == Sc[u]))
  loop 1
    invariant fresh(nsc) && (forall u int :: {in(u, nsc)} {nsc[u]} in(u, nsc) == $done[u] && (in(u, nsc) ==> in(u, Sc) && nsc[u] == Sc[u]))
  endloop
def sameVar(a *Variable, b *Variable) bool = a.Varid == b.Varid && a.Categories == b.Categories && a.Name == b.Name
func CopyScope(Sc) (r)
  requires forall u int :: {Sc[u]} in(u, Sc) ==> Sc[u] != nil
  ensures fresh(r) && (forall u int :: {in(u, r)} {r[u]} in(u, r) == in(u, Sc) && (in(u, r) ==> fresh(r[u]) && sameVar(r[u], Sc[u])))
  loop 1
    invariant fresh(nsc) && (forall u int :: {in(u, nsc)} {nsc[u]} in(u, nsc) == $done[u] && (in(u, nsc) ==> in(u, Sc) && fresh(nsc[u]) && sameVar(nsc[u], Sc[u])))
  endloop
// one column per variable of the scope
def column(c *utils.VarData, v *Variable, D []map[int]int) bool = c != nil && fresh(c) && c.Varid == v.Varid && c.Categories == v.Categories && fresh(c.Data) && len(c.Data) == len(D) && (forall j int :: {c.Data[j]} 0 <= j && j < len(D) ==> c.Data[j] == ite(in(v.Varid, D[j]), D[j][v.Varid], 0))
func DataToVarData(D, Sc) (r)
  requires forall u int :: {Sc[u]} in(u, Sc) ==> Sc[u] != nil
  ghostvar ix [int]int
  ghostvar kk [int]int
  ensures fresh(r) && len(r) == len(Sc)
  ensures forall u int :: {in(u, Sc)} {ix[u]} in(u, Sc) ==> 0 <= ix[u] && ix[u] < len(r) && column(r[ix[u]], Sc[u], D) && kk[ix[u]] == u
  ensures forall l int :: {kk[l]} {r[l]} 0 <= l && l < len(r) ==> in(kk[l], Sc) && ix[kk[l]] == l
  loop 1
    step ix = store(ix, $key, $k-1)
    step kk = store(kk, $k-1, $key)
    invariant fresh(vdata) && len(vdata) == len(Sc) && l == $k
    invariant forall u int :: {$done[u]} {ix[u]} $done[u] ==> in(u, Sc) && 0 <= ix[u] && ix[u] < $k && column(vdata[ix[u]], Sc[u], D) && kk[ix[u]] == u
    invariant forall l int :: {kk[l]} {vdata[l]} 0 <= l && l < $k ==> $done[kk[l]] && ix[kk[l]] == l
  endloop
  loop 2
    invariant fresh(tdata) && len(tdata) == len(D) && (forall q int :: {tdata[q]} 0 <= q && q < j ==> tdata[q] == ite(in(v.Varid, D[q]), D[q][v.Varid], 0))
  endloop
property C20 learn.ExtractInstance learn.CompleteDataToMatrix learn.CompleteDataToMatrixF learn.DataToMatrix learn.DataToMatrixF learn.MatrixToData learn.ReflectScope learn.CopyScope learn.DataToVarData
