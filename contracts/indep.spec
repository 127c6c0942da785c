package distuv
theory indep
uses reals
// the distribution function of the chi-square distribution
fun chicdf(x F, df F) F
// expected frequency, and the contribution of a cell to the two statistics
def efreq(c int, r int, t int) Real = real(c * r) / real(t)
fun gterm(o int, e Real) Real
  axiom forall o int, e Real :: {gterm(o, e)} gterm(o, e) == ite(o == 0 || e == 0.0, 0.0, real(o) * ln(real(o) / e))
fun cterm(o int, e Real) Real
  axiom forall o int, e Real :: {cterm(o, e)} cterm(o, e) == ite(o == 0 && e == 0.0, 0.0, (real(o) - e) * (real(o) - e) / e)
// sums over the cells of a table with p rows and q columns; row p and column q hold the totals
rec grow(M [int][int]int, p int, q int, i int, j int) Real = ite(j <= 0, 0.0, grow(M, p, q, i, j-1) + gterm(M[i][j-1], efreq(M[p][j-1], M[i][q], M[p][q])))
rec gsum(M [int][int]int, p int, q int, i int) Real = ite(i <= 0, 0.0, gsum(M, p, q, i-1) + grow(M, p, q, i-1, q))
rec crow(M [int][int]int, p int, q int, i int, j int) Real = ite(j <= 0, 0.0, crow(M, p, q, i, j-1) + cterm(M[i][j-1], efreq(M[p][j-1], M[i][q], M[p][q])))
rec csumx(M [int][int]int, p int, q int, i int) Real = ite(i <= 0, 0.0, csumx(M, p, q, i-1) + crow(M, p, q, i-1, q))
def gind(M [int][int]int, p int, q int, s F) bool = F(1.0) - chicdf(F(2.0 * gsum(M, p, q, p)), F(real((p-1)*(q-1)))) >= s
def cind(M [int][int]int, p int, q int, s F) bool = F(1.0) - chicdf(F(csumx(M, p, q, p)), F(real((p-1)*(q-1)))) >= s
lemma grow_ext(M [int][int]int, N [int][int]int, p int, q int, i int, j int) induct j
  requires 0 <= i && i < p && j <= q && (forall x int, y int :: {M[x][y]} {N[x][y]} 0 <= x && x <= p && 0 <= y && y <= q ==> M[x][y] == N[x][y])
  ensures grow(M, p, q, i, j) == grow(N, p, q, i, j)
  noauto
lemma gsum_ext(M [int][int]int, N [int][int]int, p int, q int, i int) induct i
  requires i <= p && q >= 0 && (forall x int, y int :: {M[x][y]} {N[x][y]} 0 <= x && x <= p && 0 <= y && y <= q ==> M[x][y] == N[x][y])
  ensures gsum(M, p, q, i) == gsum(N, p, q, i)
  noauto
  apply i > 0 ==> grow_ext(M, N, p, q, i-1, q)
// co-occurrences among the first m instances, and the totals of a row, of a column and of the table
rec cooc(a [int]int, b [int]int, x int, y int, m int) int = ite(m <= 0, 0, cooc(a, b, x, y, m-1) + ite(a[m-1] == x && b[m-1] == y, 1, 0))
rec rtot(a [int]int, b [int]int, m int, x int, y int) int = ite(y <= 0, 0, rtot(a, b, m, x, y-1) + cooc(a, b, x, y-1, m))
rec ctot(a [int]int, b [int]int, m int, x int, y int) int = ite(x <= 0, 0, ctot(a, b, m, x-1, y) + cooc(a, b, x-1, y, m))
rec ttot(a [int]int, b [int]int, m int, p int, y int) int = ite(y <= 0, 0, ttot(a, b, m, p, y-1) + ctot(a, b, m, p, y-1))
// the contingency table with its totals
fun ctab(a [int]int, b [int]int, m int, p int, q int) [int][int]int
  axiom forall a [int]int, b [int]int, m int, p int, q int, x int, y int :: {ctab(a, b, m, p, q)[x][y]} ctab(a, b, m, p, q)[x][y] == ite(x < p, ite(y < q, cooc(a, b, x, y, m), rtot(a, b, m, x, q)), ite(y < q, ctot(a, b, m, p, y), ttot(a, b, m, p, q)))
lemma cooc_pos(a [int]int, b [int]int, x int, y int, m int) induct m
  ensures cooc(a, b, x, y, m) >= 0
  trigger cooc(a, b, x, y, m)
lemma rtot_pos(a [int]int, b [int]int, m int, x int, y int) induct y
  ensures rtot(a, b, m, x, y) >= 0
  trigger rtot(a, b, m, x, y)
lemma ctot_pos(a [int]int, b [int]int, m int, x int, y int) induct x
  ensures ctot(a, b, m, x, y) >= 0
  trigger ctot(a, b, m, x, y)
lemma ctot_ge(a [int]int, b [int]int, m int, x int, y int, p int) induct p
  requires 0 <= x && x < p
  ensures cooc(a, b, x, y, m) <= ctot(a, b, m, p, y)
  trigger cooc(a, b, x, y, m), ctot(a, b, m, p, y)
lemma ttot_pos(a [int]int, b [int]int, m int, p int, y int) induct y
  ensures ttot(a, b, m, p, y) >= 0
  trigger ttot(a, b, m, p, y)
lemma ttot_ge(a [int]int, b [int]int, m int, p int, y int, q int) induct q
  requires 0 <= y && y < q
  ensures ctot(a, b, m, p, y) <= ttot(a, b, m, p, q)
  trigger ctot(a, b, m, p, y), ttot(a, b, m, p, q)
// a row and the table without it
lemma rtot_le(a [int]int, b [int]int, m int, x int, p int, q int) induct q
  requires 0 <= x && x < p
  ensures rtot(a, b, m, x, q) <= ttot(a, b, m, p, q)
  trigger rtot(a, b, m, x, q), ttot(a, b, m, p, q)
// the outcome of the test for a pair of variables; conn: any equivalence that contains the dependences
fun dpd(i int, j int) bool
fun obs(i int) [int]int
fun conn(i int, j int) bool
fun zeros() [int]int
  axiom forall i int :: {zeros()[i]} zeros()[i] == 0
fun cellv(K [int][int]ref, idx [ref]int) [int][int]int
  axiom forall K [int][int]ref, idx [ref]int, t int, e int :: {cellv(K, idx)[t][e]} cellv(K, idx)[t][e] == idx[K[t][e]]
fun memb(N [int]ref, c [ref]ref, g [ref]int) [int]int
  axiom forall N [int]ref, c [ref]ref, g [ref]int, a int :: {memb(N, c, g)[a]} memb(N, c, g)[a] == g[c[N[a]]]
fun plac(N [int]ref, c [ref]ref, g [ref]int, X [int][ref]int) [int]int
  axiom forall N [int]ref, c [ref]ref, g [ref]int, X [int][ref]int, a int :: {plac(N, c, g, X)[a]} plac(N, c, g, X)[a] == X[g[c[N[a]]]][N[a]]
endtheory
def ctable(p int, q int, d [][]int) bool = p >= 1 && q >= 1 && len(d) >= p + 1 && (forall i int :: {d[i]} 0 <= i && i <= p ==> len(d[i]) >= q + 1) && (forall i int, j int :: {d[i][j]} 0 <= i && i <= p && 0 <= j && j <= q ==> d[i][j] >= 0)
def emat(E [][]float64, p int, q int, k int) bool = len(E) == p && fresh(E) && (forall i int :: {E[i]} 0 <= i && i < k ==> len(E[i]) == q && fresh(E[i])) && (forall i int, j int :: {E[i], E[j]} 0 <= i && i < j && j < k ==> arr(E[i]) != arr(E[j]))
def efr(d [][]int, p int, q int, i int, j int) F = F(real(d[p][j] * d[i][q])) / F(real(d[p][q]))
func ChiSquared.CDF(c, x) (r)
  uses indep
  trusted gonum: distribution function of the chi-square distribution with K degrees of freedom
  ensures r == chicdf(x, c.K)
package indep
func ChiSquare(chi, df) (r)
  uses indep
  ensures r == chicdf(chi, F(real(df)))
func GTest(p, q, data, n, sigval) (r)
  uses indep
  requires ctable(p, q, data)
  requires forall i int, j int :: {data[i][j]} 0 <= i && i <= p && 0 <= j && j <= q ==> data[i][j] <= data[p][q]
  ghostvar M [int][int]int
  ensures forall i int, j int :: {M[i][j]} 0 <= i && i <= p && 0 <= j && j <= q ==> M[i][j] == data[i][j]
  ensures r == gind(M, p, q, sigval)
  loop 1
    init M = store(M, p, elems(data[p]))
    step M = store(M, $k-1, elems(data[$k-1]))
    invariant emat(E, p, q, i) && 0 <= i && i <= p
    invariant forall x int, y int :: {M[x][y]} (0 <= x && x < i || x == p) && 0 <= y && y <= q ==> M[x][y] == data[x][y]
  endloop
  loop 2
    invariant emat(E, p, q, p) && 0 <= i && i <= p
    invariant forall x int, y int :: {E[x][y]} 0 <= x && x < i && 0 <= y && y < q ==> E[x][y] == efr(data, p, q, x, y)
  endloop
  loop 3
    invariant emat(E, p, q, p) && 0 <= i && i < p && 0 <= j && j <= q
    invariant forall x int, y int :: {E[x][y]} 0 <= x && 0 <= y && (x < i && y < q || x == i && y < j) ==> E[x][y] == efr(data, p, q, x, y)
  endloop
  loop 4
    invariant 0 <= i && i <= p && sum == F(gsum(M, p, q, i))
  endloop
  loop 5
    invariant 0 <= i && i < p && 0 <= j && j <= q && sum == F(gsum(M, p, q, i) + grow(M, p, q, i, j))
  endloop
property C13 indep.ChiSquare indep.GTest indep.ChiSquareTest indep.NewUFIndepGraph indep.NewIndepGraph lemma:grow_ext lemma:gsum_ext lemma:cooc_pos lemma:rtot_pos lemma:ctot_pos lemma:ctot_ge lemma:ttot_pos lemma:ttot_ge lemma:rtot_le
func ChiSquareTest(p, q, data, sigval) (r)
  uses indep
  requires ctable(p, q, data) && data[p][q] > 0
  requires forall i int, j int :: {data[i][j]} 0 <= i && i < p && 0 <= j && j < q ==> data[i][j] <= data[i][q] && data[i][j] <= data[p][j]
  ghostvar M [int][int]int
  ensures forall i int, j int :: {M[i][j]} 0 <= i && i <= p && 0 <= j && j <= q ==> M[i][j] == data[i][j]
  ensures r == cind(M, p, q, sigval)
  loop 1
    init M = store(M, p, elems(data[p]))
    step M = store(M, $k-1, elems(data[$k-1]))
    invariant emat(E, p, q, i) && 0 <= i && i <= p
    invariant forall x int, y int :: {M[x][y]} (0 <= x && x < i || x == p) && 0 <= y && y <= q ==> M[x][y] == data[x][y]
  endloop
  loop 2
    invariant emat(E, p, q, p) && 0 <= i && i <= p
    invariant forall x int, y int :: {E[x][y]} 0 <= x && x < i && 0 <= y && y < q ==> E[x][y] == efr(data, p, q, x, y)
  endloop
  loop 3
    invariant emat(E, p, q, p) && 0 <= i && i < p && 0 <= j && j <= q
    invariant forall x int, y int :: {E[x][y]} 0 <= x && 0 <= y && (x < i && y < q || x == i && y < j) ==> E[x][y] == efr(data, p, q, x, y)
  endloop
  loop 4
    invariant 0 <= i && i <= p && chi == F(csumx(M, p, q, i))
  endloop
  loop 5
    invariant 0 <= i && i < p && 0 <= j && j <= q && chi == F(csumx(M, p, q, i) + crow(M, p, q, i, j))
  endloop

def table(M [][]int, p int, q int, k int) bool = len(M) == p + 1 && fresh(M) && (forall x int :: {M[x]} 0 <= x && x < k ==> len(M[x]) == q + 1 && fresh(M[x])) && (forall x int, y int :: {M[x], M[y]} 0 <= x && x < y && y < k ==> arr(M[x]) != arr(M[y]))
def apart(t []int, M [][]int, p int) bool = forall x int :: {M[x]} 0 <= x && x <= p ==> arr(t) != arr(M[x])
def vdOK(D []*utils.VarData) bool = forall i int :: {D[i]} 0 <= i && i < len(D) ==> D[i] != nil && D[i].Categories >= 1 && len(D[i].Data) == len(D[0].Data) && (forall k int :: {D[i].Data[k]} 0 <= k && k < len(D[i].Data) ==> 0 <= D[i].Data[k] && D[i].Data[k] < D[i].Categories)
def dpdOK(D []*utils.VarData, s F) bool = forall i int, j int :: {dpd(i, j)} 0 <= i && i < j && j < len(D) ==> dpd(i, j) == !gind(ctab(obs(i), obs(j), len(D[i].Data), D[i].Categories, D[j].Categories), D[i].Categories, D[j].Categories, s)
def obsOK(D []*utils.VarData) bool = forall i int, k int :: {obs(i)[k]} {D[i].Data[k]} 0 <= i && i < len(D) && 0 <= k && k < len(D[i].Data) ==> obs(i)[k] == D[i].Data[k]
def connOK(n int) bool = (forall i int :: {conn(i, i)} conn(i, i)) && (forall i int, j int :: {conn(i, j)} conn(i, j) ==> conn(j, i)) && (forall i int, j int, k int :: {conn(i, j), conn(j, k)} conn(i, j) && conn(j, k) ==> conn(i, k)) && (forall i int, j int :: {dpd(i, j)} 0 <= i && i < j && j < n && dpd(i, j) ==> conn(i, j))
// the nodes made here: N lists them, idx numbers them
def setsOK(S []*utils.UFNode, N [int]ref, k int) bool = fresh(S) && k <= len(S) && (forall a int :: {S[a]} {N[a]} 0 <= a && a < k ==> S[a] == N[a])
def nodeOK(N [int]ref, D []*utils.VarData, idx [ref]int, k int) bool = k <= len(D) && (forall a int :: {N[a]} 0 <= a && a < k ==> ufn[N[a]] && fresh(N[a]) && idx[N[a]] == a && fld("utils.UFNode.varid", N[a]) == D[a].Varid)
def newOK(N [int]ref, idx [ref]int, k int) bool = (forall n ref :: {ufn[n]} ufn[n] && fresh(n) ==> 0 <= idx[n] && idx[n] < k && N[idx[n]] == n) && (forall n ref :: {cls[n]} ufn[n] ==> fresh(n) == fresh(cls[n]))
def sepOK(S []*utils.UFNode) bool = forall n *utils.UFNode :: {n.Ch} ufn[n] ==> arr(n.Ch) == 0 || arr(n.Ch) != arr(S) && (fresh(n) ==> fresh(n.Ch))
def sound(N [int]ref, n int) bool = forall a int, b int :: {cls[N[a]], cls[N[b]]} 0 <= a && a < n && 0 <= b && b < n && cls[N[a]] == cls[N[b]] ==> conn(a, b)
def adjOK(m map[int][]int) bool = forall v int :: {m[v]} arr(m[v]) == 0 || fresh(m[v])
def adjE(m map[int][]int, D []*utils.VarData, AL [int]int) bool = forall a int :: {D[a]} {AL[a]} 0 <= a && a < len(D) ==> D[a].Varid in m && AL[a] == len(m[D[a].Varid])
def adjC(m map[int][]int, D []*utils.VarData, AL [int]int, AJ [int][int]int) bool = forall a int, e int :: {AJ[a][e]} {m[D[a].Varid][e]} 0 <= a && a < len(D) && 0 <= e && e < AL[a] ==> m[D[a].Varid][e] == D[AJ[a][e]].Varid
def adjJ(n int, AL [int]int, AJ [int][int]int) bool = forall a int, e int :: {AJ[a][e]} 0 <= a && a < n && 0 <= e && e < AL[a] ==> 0 <= AJ[a][e] && AJ[a][e] < n && AJ[a][e] != a && (a < AJ[a][e] ==> dpd(a, AJ[a][e])) && (AJ[a][e] < a ==> dpd(AJ[a][e], a))
def adjS(m map[int][]int) bool = forall u int, v int :: {m[u], m[v]} u != v && arr(m[u]) != 0 ==> arr(m[u]) != arr(m[v])
def adjT(m map[int][]int, M [][]int, k int) bool = forall v int, x int :: {m[v], M[x]} 0 <= x && x <= k ==> arr(m[v]) != arr(M[x])
def adjT2(t []int, M [][]int, k int) bool = forall x int :: {M[x]} 0 <= x && x <= k ==> arr(t) != arr(M[x])
def adjI(m map[int][]int, t []int) bool = forall v int :: {m[v]} arr(m[v]) != arr(t)
def idsC(t []int, D []*utils.VarData, k int) bool = forall a int :: {t[a]} 0 <= a && a < k ==> t[a] == D[a].Varid
func NewUFIndepGraph(data, pval) (r)
  uses indep, ufops
  requires vdOK(data) && obsOK(data) && dpdOK(data, pval) && connOK(len(data)) && ufOK()
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.ufn"), all("gh.kid"), all("gh.nk")
  ghostvar idx [ref]int
  ghostvar N [int]ref
  ghostvar TM [int][int]int
  ghostvar gk [ref]int
  ghostvar KN [int][int]ref
  ghostvar KX [int][ref]int
  ghostvar RT [int]ref
  aftercall utils.MakeSet idx = store(idx, $res0, i)
  aftercall utils.MakeSet N = store(N, i, $res0)
  aftercall utils.UFVarids gk = store(gk, $arg0, len(igraph.Kset))
  aftercall utils.UFVarids KN = store(KN, len(igraph.Kset), $gv_N)
  aftercall utils.UFVarids KX = store(KX, len(igraph.Kset), $gv_ix)
  aftercall utils.UFVarids RT = store(RT, len(igraph.Kset), $arg0)
  // variable a is listed in the set member(a), at position place(a); the cell (t, e) lists variable var(t, e)
  ghostvar member [int]int
  ghostvar place [int]int
  ghostvar var [int][int]int
  ghost var = cellv(KN, idx)
  assert forall a int :: {member[a]} 0 <= a && a < len(data) ==> RT[member[a]] == cls[N[a]]
  assert forall a int, b int :: {N[a], N[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && cls[N[a]] == cls[N[b]] ==> conn(a, b)
  assert forall a int, b int :: {member[a], member[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && member[a] == member[b] ==> cls[N[a]] == cls[N[b]]
  ghost member = memb(N, ghostmap(cls), gk)
  ghost place = plac(N, ghostmap(cls), gk, KX)
  ensures fresh(r)
  ensures forall a int :: {member[a]} {place[a]} 0 <= a && a < len(data) ==> 0 <= member[a] && member[a] < len(r.Kset) && 0 <= place[a] && place[a] < len(r.Kset[member[a]]) && r.Kset[member[a]][place[a]] == data[a].Varid
  ensures forall t int, e int :: {r.Kset[t][e]} 0 <= t && t < len(r.Kset) && 0 <= e && e < len(r.Kset[t]) ==> 0 <= var[t][e] && var[t][e] < len(data) && member[var[t][e]] == t && place[var[t][e]] == e && r.Kset[t][e] == data[var[t][e]].Varid
  ensures forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < len(data) && dpd(a, b) ==> member[a] == member[b]
  ensures forall a int, b int :: {member[a], member[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && member[a] == member[b] ==> conn(a, b)
  aftercall indep.GTest TM = $gv_M
  afterapply indep.GTest gsum_ext(TM, ctab(obs(i), obs(j), len(data[i].Data), data[i].Categories, data[j].Categories), data[i].Categories, data[j].Categories, data[i].Categories)
  afterassert indep.GTest $res0 == !dpd(i, j)
  loop 1
    invariant len(ids) == n && fresh(ids) && adjOK(igraph.adjlist) && (forall a int :: {ids[a]} 0 <= a && a < i ==> ids[a] == data[a].Varid)
  endloop
  loop 2
    invariant ufOK()
    invariant 0 <= i && i <= n
    invariant setsOK(sets, N, i)
    invariant nodeOK(N, data, idx, i)
    invariant newOK(N, idx, i)
    invariant sepOK(sets)
    invariant forall a int :: {N[a]} 0 <= a && a < i ==> cls[N[a]] == N[a]
  endloop
  loop 3
    invariant ufOK()
    invariant 0 <= i && i <= n && len(sets) == n && setsOK(sets, N, n)
    invariant nodeOK(N, data, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(sets)
    invariant adjOK(igraph.adjlist)
    invariant sound(N, n)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && a < i && dpd(a, b) ==> cls[N[a]] == cls[N[b]]
  endloop
  loop 4
    invariant ufOK()
    invariant 0 <= i && i < n && i < j && j <= n && setsOK(sets, N, n)
    invariant nodeOK(N, data, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(sets)
    invariant adjOK(igraph.adjlist)
    invariant sound(N, n)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && (a < i || a == i && b < j) && dpd(a, b) ==> cls[N[a]] == cls[N[b]]
  endloop
  loop 5
    invariant table(mdata, p, q, k) && 0 <= k && k <= p + 1
    invariant forall x int, y int :: {mdata[x][y]} 0 <= x && x < k && 0 <= y && y <= q ==> mdata[x][y] == 0
  endloop
  loop 6
    invariant table(mdata, p, q, p + 1) && 0 <= k && k <= m
    invariant forall x int, y int :: {mdata[x][y]} 0 <= x && x <= p && 0 <= y && y <= q ==> mdata[x][y] == ite(x < p && y < q, cooc(obs(i), obs(j), x, y, k), 0)
  endloop
  loop 7
    invariant table(mdata, p, q, p + 1) && 0 <= x && x <= p && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a <= p && 0 <= b && b < q ==> mdata[a][b] == ite(a < p, cooc(obs(i), obs(j), a, b, m), 0)
    invariant forall a int :: {mdata[a]} 0 <= a && a < x ==> mdata[a][q] == rtot(obs(i), obs(j), m, a, q)
    invariant forall b int :: {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, x, b)
  endloop
  loop 8
    invariant table(mdata, p, q, p + 1) && 0 <= x && x < p && 0 <= y && y <= q && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant ty == rtot(obs(i), obs(j), m, x, y)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a <= p && 0 <= b && b < q ==> mdata[a][b] == ite(a < p, cooc(obs(i), obs(j), a, b, m), 0)
    invariant forall a int :: {mdata[a]} 0 <= a && a < x ==> mdata[a][q] == rtot(obs(i), obs(j), m, a, q)
    invariant forall b int :: {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, ite(b < y, x + 1, x), b)
  endloop
  loop 9
    invariant table(mdata, p, q, p + 1) && 0 <= y && y <= q && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant tt == ttot(obs(i), obs(j), m, p, y)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a < p && 0 <= b && b <= q ==> mdata[a][b] == ite(b < q, cooc(obs(i), obs(j), a, b, m), rtot(obs(i), obs(j), m, a, q))
    invariant forall b int :: {mdata[p][b]} {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, p, b) && (b < y ==> mdata[p][b] == tx[b])
  endloop
  loop 10
    invariant 0 <= i && i <= n && i == $k
    invariant forall t int :: {RT[t]} 0 <= t && t < len(igraph.Kset) ==> ufn[RT[t]] && cls[RT[t]] == RT[t] && fresh(RT[t]) && idx[RT[t]] < i && gk[RT[t]] == t
    invariant forall t int, e int :: {igraph.Kset[t][e]} {KN[t][e]} 0 <= t && t < len(igraph.Kset) && 0 <= e && e < len(igraph.Kset[t]) ==> ufn[KN[t][e]] && fresh(KN[t][e]) && cls[KN[t][e]] == RT[t] && igraph.Kset[t][e] == fld("utils.UFNode.varid", KN[t][e]) && KX[t][KN[t][e]] == e
    invariant forall a int :: {N[a]} 0 <= a && a < n && idx[cls[N[a]]] < i ==> RT[gk[cls[N[a]]]] == cls[N[a]]
    invariant forall a int :: {N[a]} 0 <= a && a < n && idx[cls[N[a]]] < i ==> 0 <= gk[cls[N[a]]] && gk[cls[N[a]]] < len(igraph.Kset) && 0 <= KX[gk[cls[N[a]]]][N[a]] && KX[gk[cls[N[a]]]][N[a]] < len(igraph.Kset[gk[cls[N[a]]]]) && KN[gk[cls[N[a]]]][KX[gk[cls[N[a]]]][N[a]]] == N[a]
  endloop
func NewIndepGraph(data, pval) (r)
  uses indep, ufops
  requires vdOK(data) && obsOK(data) && dpdOK(data, pval) && connOK(len(data)) && ufOK()
  requires forall a int, b int :: {data[a], data[b]} 0 <= a && a < b && b < len(data) ==> data[a].Varid != data[b].Varid
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.ufn"), all("gh.kid"), all("gh.nk")
  ghostvar idx [ref]int
  ghostvar N [int]ref
  ghostvar TM [int][int]int
  ghostvar gk [ref]int
  ghostvar KN [int][int]ref
  ghostvar KX [int][ref]int
  ghostvar RT [int]ref
  aftercall utils.MakeSet idx = store(idx, $res0, i)
  aftercall utils.MakeSet N = store(N, i, $res0)
  aftercall utils.UFVarids gk = store(gk, $arg0, len(igraph.Kset))
  aftercall utils.UFVarids KN = store(KN, len(igraph.Kset), $gv_N)
  aftercall utils.UFVarids KX = store(KX, len(igraph.Kset), $gv_ix)
  aftercall utils.UFVarids RT = store(RT, len(igraph.Kset), $arg0)
  // variable a is listed in the set member(a), at position place(a); the cell (t, e) lists variable var(t, e)
  ghostvar member [int]int
  ghostvar place [int]int
  ghostvar var [int][int]int
  ghost var = cellv(KN, idx)
  assert forall a int :: {member[a]} 0 <= a && a < len(data) ==> RT[member[a]] == cls[N[a]]
  assert forall a int, b int :: {N[a], N[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && cls[N[a]] == cls[N[b]] ==> conn(a, b)
  assert forall a int, b int :: {member[a], member[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && member[a] == member[b] ==> cls[N[a]] == cls[N[b]]
  ghost member = memb(N, ghostmap(cls), gk)
  ghost place = plac(N, ghostmap(cls), gk, KX)
  ensures fresh(r)
  ensures forall a int :: {member[a]} {place[a]} 0 <= a && a < len(data) ==> 0 <= member[a] && member[a] < len(r.Kset) && 0 <= place[a] && place[a] < len(r.Kset[member[a]]) && r.Kset[member[a]][place[a]] == data[a].Varid
  ensures forall t int, e int :: {r.Kset[t][e]} 0 <= t && t < len(r.Kset) && 0 <= e && e < len(r.Kset[t]) ==> 0 <= var[t][e] && var[t][e] < len(data) && member[var[t][e]] == t && place[var[t][e]] == e && r.Kset[t][e] == data[var[t][e]].Varid
  ensures forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < len(data) && dpd(a, b) ==> member[a] == member[b]
  ensures forall a int, b int :: {member[a], member[b]} 0 <= a && a < len(data) && 0 <= b && b < len(data) && member[a] == member[b] ==> conn(a, b)
  aftercall indep.GTest TM = $gv_M
  // variable a has AL[a] neighbours, the e-th is AJ[a][e]; PX[a][b] is the place of b among those of a
  ghostvar AL [int]int
  ghostvar AJ [int][int]int
  ghostvar PX [int][int]int
  aftercall indep.GTest PX = ite($res0, PX, store(PX, i, store(PX[i], j, AL[i])))
  aftercall indep.GTest AJ = ite($res0, AJ, store(store(AJ, i, store(AJ[i], AL[i], j)), j, store(AJ[j], AL[j], i)))
  aftercall indep.GTest AL = ite($res0, AL, store(store(AL, i, AL[i] + 1), j, AL[j] + 1))
  afterapply indep.GTest gsum_ext(TM, ctab(obs(i), obs(j), len(data[i].Data), data[i].Categories, data[j].Categories), data[i].Categories, data[j].Categories, data[i].Categories)
  afterassert indep.GTest $res0 == !dpd(i, j)
  loop 1
    init AL = zeros()
    invariant len(ids) == n && fresh(ids) && idsC(ids, data, i)
    invariant adjI(igraph.adjlist, ids)
    invariant adjOK(igraph.adjlist)
    invariant adjS(igraph.adjlist)
    invariant forall v int :: {igraph.adjlist[v]} len(igraph.adjlist[v]) == 0
    invariant forall a int :: {data[a]} 0 <= a && a < i ==> data[a].Varid in rids && rids[data[a].Varid] == a && data[a].Varid in igraph.adjlist
  endloop
  loop 2
    invariant 0 <= i && i <= n
    invariant adjOK(igraph.adjlist)
    invariant fresh(ids) && len(ids) == n && idsC(ids, data, n) && adjI(igraph.adjlist, ids)
    invariant adjE(igraph.adjlist, data, AL)
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjJ(n, AL, AJ)
    invariant adjS(igraph.adjlist)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && (a < i) && dpd(a, b) ==> 0 <= PX[a][b] && PX[a][b] < AL[a] && AJ[a][PX[a][b]] == b
  endloop
  loop 3
    invariant 0 <= i && i < n && i < j && j <= n
    invariant adjOK(igraph.adjlist)
    invariant fresh(ids) && len(ids) == n && idsC(ids, data, n) && adjI(igraph.adjlist, ids)
    invariant adjE(igraph.adjlist, data, AL)
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjJ(n, AL, AJ)
    invariant adjS(igraph.adjlist)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && (a < i || a == i && b < j) && dpd(a, b) ==> 0 <= PX[a][b] && PX[a][b] < AL[a] && AJ[a][PX[a][b]] == b
  endloop
  loop 4
    invariant table(mdata, p, q, k) && 0 <= k && k <= p + 1
    invariant forall x int, y int :: {mdata[x][y]} 0 <= x && x < k && 0 <= y && y <= q ==> mdata[x][y] == 0
    invariant adjT(igraph.adjlist, mdata, k - 1) && adjT2(ids, mdata, k - 1)
  endloop
  loop 5
    invariant table(mdata, p, q, p + 1) && 0 <= k && k <= m
    invariant forall x int, y int :: {mdata[x][y]} 0 <= x && x <= p && 0 <= y && y <= q ==> mdata[x][y] == ite(x < p && y < q, cooc(obs(i), obs(j), x, y, k), 0)
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjT(igraph.adjlist, mdata, p)
    invariant idsC(ids, data, n) && adjT2(ids, mdata, p)
  endloop
  loop 6
    invariant table(mdata, p, q, p + 1) && 0 <= x && x <= p && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a <= p && 0 <= b && b < q ==> mdata[a][b] == ite(a < p, cooc(obs(i), obs(j), a, b, m), 0)
    invariant forall a int :: {mdata[a]} 0 <= a && a < x ==> mdata[a][q] == rtot(obs(i), obs(j), m, a, q)
    invariant forall b int :: {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, x, b)
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjT(igraph.adjlist, mdata, p)
    invariant idsC(ids, data, n) && adjT2(ids, mdata, p)
  endloop
  loop 7
    invariant table(mdata, p, q, p + 1) && 0 <= x && x < p && 0 <= y && y <= q && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant ty == rtot(obs(i), obs(j), m, x, y)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a <= p && 0 <= b && b < q ==> mdata[a][b] == ite(a < p, cooc(obs(i), obs(j), a, b, m), 0)
    invariant forall a int :: {mdata[a]} 0 <= a && a < x ==> mdata[a][q] == rtot(obs(i), obs(j), m, a, q)
    invariant forall b int :: {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, ite(b < y, x + 1, x), b)
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjT(igraph.adjlist, mdata, p)
    invariant idsC(ids, data, n) && adjT2(ids, mdata, p)
  endloop
  loop 8
    invariant table(mdata, p, q, p + 1) && 0 <= y && y <= q && len(tx) == q && fresh(tx) && apart(tx, mdata, p)
    invariant tt == ttot(obs(i), obs(j), m, p, y)
    invariant forall a int, b int :: {mdata[a][b]} 0 <= a && a < p && 0 <= b && b <= q ==> mdata[a][b] == ite(b < q, cooc(obs(i), obs(j), a, b, m), rtot(obs(i), obs(j), m, a, q))
    invariant forall b int :: {mdata[p][b]} {tx[b]} 0 <= b && b < q ==> tx[b] == ctot(obs(i), obs(j), m, p, b) && (b < y ==> mdata[p][b] == tx[b])
    invariant adjC(igraph.adjlist, data, AL, AJ)
    invariant adjT(igraph.adjlist, mdata, p)
    invariant idsC(ids, data, n) && adjT2(ids, mdata, p)
  endloop
  loop 9
    invariant ufOK()
    invariant 0 <= i && i <= n
    invariant setsOK(sets, N, i)
    invariant nodeOK(N, data, idx, i)
    invariant newOK(N, idx, i)
    invariant sepOK(sets)
    invariant forall a int :: {N[a]} 0 <= a && a < i ==> cls[N[a]] == N[a]
  endloop
  loop 10
    invariant ufOK()
    invariant 0 <= i && i <= n && len(sets) == n && setsOK(sets, N, n)
    invariant nodeOK(N, data, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(sets)
    invariant sound(N, n)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && a < i && dpd(a, b) ==> cls[N[a]] == cls[N[b]]
    invariant adjC(igraph.adjlist, data, AL, AJ)
  endloop
  loop 11
    invariant ufOK()
    invariant 0 <= i && i < n && 0 <= j && j <= m && m == AL[i] && setsOK(sets, N, n)
    invariant nodeOK(N, data, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(sets)
    invariant sound(N, n)
    invariant forall a int, b int :: {dpd(a, b)} 0 <= a && a < b && b < n && (a < i || a == i && PX[a][b] < j) && dpd(a, b) ==> cls[N[a]] == cls[N[b]]
    invariant adjC(igraph.adjlist, data, AL, AJ)
  endloop
  loop 12
    invariant 0 <= i && i <= n && i == $k
    invariant forall t int :: {RT[t]} 0 <= t && t < len(igraph.Kset) ==> ufn[RT[t]] && cls[RT[t]] == RT[t] && fresh(RT[t]) && idx[RT[t]] < i && gk[RT[t]] == t
    invariant forall t int, e int :: {igraph.Kset[t][e]} {KN[t][e]} 0 <= t && t < len(igraph.Kset) && 0 <= e && e < len(igraph.Kset[t]) ==> ufn[KN[t][e]] && fresh(KN[t][e]) && cls[KN[t][e]] == RT[t] && igraph.Kset[t][e] == fld("utils.UFNode.varid", KN[t][e]) && KX[t][KN[t][e]] == e
    invariant forall a int :: {N[a]} 0 <= a && a < n && idx[cls[N[a]]] < i ==> RT[gk[cls[N[a]]]] == cls[N[a]]
    invariant forall a int :: {N[a]} 0 <= a && a < n && idx[cls[N[a]]] < i ==> 0 <= gk[cls[N[a]]] && gk[cls[N[a]]] < len(igraph.Kset) && 0 <= KX[gk[cls[N[a]]]][N[a]] && KX[gk[cls[N[a]]]][N[a]] < len(igraph.Kset[gk[cls[N[a]]]]) && KN[gk[cls[N[a]]]][KX[gk[cls[N[a]]]][N[a]]] == N[a]
  endloop
