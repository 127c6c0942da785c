package spn
// ---- scopes ----
theory scopes
uses net pigeon
// inSc(n, v): variable v belongs to a leaf below n; wsc: a child through which it does
fun inSc(n ref, v int) bool
fun wsc(n ref, v int) int
// ci(n, v)[i]: v is in the scope of the i-th child of n
fun ci(n ref, v int) [int]bool
rec cnt(b [int]bool, k int) int = ite(k <= 0, 0, cnt(b, k-1) + ite(b[k-1], 1, 0))
lemma cnt_le(b [int]bool, k int) induct k
  requires k >= 0
  ensures 0 <= cnt(b, k) && cnt(b, k) <= k
lemma cnt_all(b [int]bool, k int) induct k
  requires k >= 0 && (forall i int :: {b[i]} 0 <= i && i < k ==> b[i])
  ensures cnt(b, k) == k
  trigger cnt(b, k)
lemma cnt_full(b [int]bool, k int, i int) induct k
  requires 0 <= i && i < k && cnt(b, k) == k
  ensures b[i]
  trigger cnt(b, k), b[i]
lemma cnt_pos(b [int]bool, k int, i int) induct k
  requires 0 <= i && i < k && b[i]
  ensures cnt(b, k) >= 1
  trigger cnt(b, k), b[i]
lemma cnt_two(b [int]bool, k int, i int, j int) induct k
  requires 0 <= i && i < j && j < k && b[i] && b[j]
  ensures cnt(b, k) >= 2
  trigger cnt(b, k), b[i], b[j]
lemma cnt_none(b [int]bool, k int) induct k
  requires forall i int :: {b[i]} 0 <= i && i < k ==> !b[i]
  ensures cnt(b, k) == 0
  noauto
lemma cnt_one(b [int]bool, k int) induct k
  requires k >= 0 && (forall i int, j int :: {b[i], b[j]} 0 <= i && i < j && j < k ==> !(b[i] && b[j]))
  ensures cnt(b, k) <= 1
  trigger cnt(b, k)
  apply k > 0 && b[k-1] ==> cnt_none(b, k - 1)
endtheory

def scNet() bool = netOK() && kinds() && (forall n ref :: {node(n)} node(n) ==> ite(isLeaf(n), len(ch(n)) == 0 && len(sc(n)) == 1 && sc(n)[0] == varid(n), len(ch(n)) > 0))
def scIn() bool = (forall n ref, v int :: {inSc(n, v)} node(n) && isLeaf(n) ==> (inSc(n, v) == (v == varid(n)))) && (forall n ref, v int :: {inSc(n, v)} node(n) && !isLeaf(n) && inSc(n, v) ==> 0 <= wsc(n, v) && wsc(n, v) < len(ch(n)) && inSc(ch(n)[wsc(n, v)], v)) && (forall n ref, i int, v int :: {ch(n)[i], inSc(ch(n)[i], v)} {ci(n, v)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> ci(n, v)[i] == inSc(ch(n)[i], v) && (inSc(ch(n)[i], v) ==> inSc(n, v)))
// position of variable v in the scope of n
def posA(n ref, PS [ref][int]int) [int]int = ite(isLeaf(n), zeros(), PS[n])
def pos(n ref, v int, PS [ref][int]int) int = posA(n, PS)[v]
// the scope of n lists exactly its variables, each once
def scOK(n ref, PS [ref][int]int) bool = (forall v int :: {inSc(n, v)} inSc(n, v) ==> 0 <= pos(n, v, PS) && pos(n, v, PS) < len(sc(n)) && sc(n)[pos(n, v, PS)] == v) && (forall j int :: {sc(n)[j]} 0 <= j && j < len(sc(n)) ==> inSc(n, sc(n)[j]) && pos(n, sc(n)[j], PS) == j)

func SPN.rawSc(n) (r)
  ensures r == sc(n)
func SPN.setRawSc(n, s)
  modifies fld("spn.Node.sc", n)
  ensures sc(n) == s

func ComputeScope(S) (r)
  uses scopes
  requires scNet() && scIn() && node(S)
  modifies all("f.spn.Node.sc")
  ghostvar W View
  ghostvar PS [ref][int]int
  ghostvar P [int]int
  ensures r == sc(S) && at(W, W.lo, S) && sorted(W, W.lo)
  ensures forall p int :: {W.arr[p]} W.lo <= p && p < W.hi ==> scOK(W.arr[p], PS)
  ensures forall n ref :: {sc(n)} isLeaf(n) || !at(W, W.lo, n) ==> sc(n) == old(sc(n))
  loop 1
    init W = T.view
    step PS = store(PS, W.arr[T.view.lo - 1], P)
    invariant W == pre(T.view) && taken(T.view, W)
    invariant forall p int :: {W.arr[p]} W.lo <= p && p < T.view.lo ==> scOK(W.arr[p], PS)
    invariant forall n ref :: {sc(n)} isLeaf(n) || !at(W, W.lo, n) ==> sc(n) == old(sc(n))
  endloop
  loop 2
    invariant forall v int :: {in(v, msc)} in(v, msc) ==> inSc(s, v)
    invariant forall i int, v int :: {ch(s)[i], inSc(ch(s)[i], v)} 0 <= i && i < $k && inSc(ch(s)[i], v) ==> in(v, msc)
  endloop
  loop 3
    invariant forall v int :: {in(v, msc)} in(v, msc) ==> inSc(s, v)
    invariant forall v int :: {in(v, msc)} pre(in(v, msc)) ==> in(v, msc)
    invariant forall j int :: {csc[j]} 0 <= j && j < $k ==> in(csc[j], msc)
  endloop
  loop 4
    step P = store(P, k, len(sc) - 1)
    invariant arr(sc) == 0 || fresh(sc)
    invariant forall j int :: {sc[j]} 0 <= j && j < len(sc) ==> $done[sc[j]] && P[sc[j]] == j
    invariant forall v int :: {$done[v]} {P[v]} $done[v] ==> 0 <= P[v] && P[v] < len(sc) && sc[P[v]] == v
  endloop

def compl(n ref) bool = forall i int, v int :: {ci(n, v)[i]} {ch(n)[i], inSc(n, v)} 0 <= i && i < len(ch(n)) && inSc(n, v) ==> inSc(ch(n)[i], v)
def disj(n ref) bool = forall i int, j int, v int :: {ci(n, v)[i], ci(n, v)[j]} 0 <= i && i < j && j < len(ch(n)) ==> !(ci(n, v)[i] && ci(n, v)[j])
def allCompl() bool = forall n ref :: {node(n)} node(n) && isSum(n) ==> compl(n)
def allDisj() bool = forall n ref :: {node(n)} node(n) && isProd(n) ==> disj(n)
def sameSc(n ref, m ref) bool = forall v int :: {inSc(n, v)} {inSc(m, v)} inSc(n, v) == inSc(m, v)
// search of the inner nodes
def bfsCl(q View, V map[SPN]bool, k int) bool = forall p int, i int :: {ch(q.arr[p])[i]} 0 <= p && p < k && 0 <= i && i < len(ch(q.arr[p])) ==> vis(V, ch(q.arr[p])[i]) || isLeaf(ch(q.arr[p])[i])

func Complete(S) (r)
  uses scopes
  requires scNet() && scIn() && node(S)
  modifies all("f.spn.Node.sc")
  ghostvar W View
  ghostvar PS [ref][int]int
  ghostvar Z View
  aftercall spn.ComputeScope W = $gv_W
  aftercall spn.ComputeScope PS = $gv_PS
  afterapply spn.SPN.rawSc sameSc(s, $arg0) ==> sub_len(elems(sc(s)), posA(s, PS), len(sc(s)), elems(sc($arg0)), posA($arg0, PS), len(sc($arg0)))
  afterapply spn.SPN.rawSc sameSc(s, $arg0) ==> sub_len(elems(sc($arg0)), posA($arg0, PS), len(sc($arg0)), elems(sc(s)), posA(s, PS), len(sc(s)))
  // Z holds the root and with every node its inner children; all its sums are complete
  ensures r ==> at(Z, 0, S) && (forall p int, i int :: {ch(Z.arr[p])[i]} 0 <= p && p < Z.hi && 0 <= i && i < len(ch(Z.arr[p])) ==> at(Z, 0, ch(Z.arr[p])[i]) || isLeaf(ch(Z.arr[p])[i]))
  ensures r ==> (forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi && isSum(Z.arr[p]) ==> compl(Z.arr[p]))
  ensures !r ==> !allCompl()
  loop 1
    init Z = Q.view
    step Z = Q.view
    invariant Z == Q.view && bfs(Q.view, V) && vis(V, S) && Q.view.lo == $k && bfsCl(Q.view, V, $k)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> compl(Q.view.arr[p])
  endloop
  loop 2
    invariant forall w int :: {in(w, v)} {v[w]} in(w, v) ==> inSc(s, w) && pos(s, w, PS) < $k && v[w] == 1
    invariant forall j int :: {sc[j]} 0 <= j && j < $k ==> in(sc[j], v)
  endloop
  loop 3
    invariant forall w int :: {in(w, v)} {v[w]} {inSc(s, w)} in(w, v) == inSc(s, w) && (in(w, v) ==> v[w] == 1 + cnt(ci(s, w), $k))
  endloop
  loop 4
    invariant forall w int :: {in(w, v)} {v[w]} {inSc(s, w)} in(w, v) == inSc(s, w) && (in(w, v) ==> v[w] == 1 + cnt(ci(s, w), $k3) + ite(inSc(c, w) && pos(c, w, PS) < $k, 1, 0))
  endloop
  loop 5
    invariant forall w int :: {$done[w]} $done[w] ==> v[w] == len(ch(s)) + 1
  endloop
  loop 6
    invariant bfs(Q.view, V) && vis(V, S) && Q.view.lo == pre(Q.view).lo && Q.view.hi >= pre(Q.view).hi
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < pre(Q.view).hi ==> Q.view.arr[p] == pre(Q.view).arr[p]
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i]) || isLeaf(ch(s)[i])
  endloop

def two(v map[int]int) bool = forall w int :: {in(w, v)} in(w, v) ==> v[w] == 2
// the t scope entries of the children read so far and the places of their variables in the scope: F and H are
// inverse to each other on the variables read once
def paired(F [int]int, H [int]int, t int, sl []int, v map[int]int) bool = t >= 0 && (forall a int :: {F[a]} 0 <= a && a < t ==> 0 <= F[a] && F[a] < len(sl) && v[sl[F[a]]] >= 2 && (v[sl[F[a]]] == 2 ==> H[F[a]] == a)) && (forall p int :: {H[p]} {sl[p]} 0 <= p && p < len(sl) && v[sl[p]] >= 2 ==> 0 <= H[p] && H[p] < t && F[H[p]] == p)
func Decomposable(S) (r)
  uses scopes
  requires scNet() && scIn() && node(S)
  modifies all("f.spn.Node.sc")
  ghostvar W View
  ghostvar PS [ref][int]int
  ghostvar Z View
  ghostvar F [int]int
  ghostvar H [int]int
  ghostvar t int
  aftercall spn.ComputeScope W = $gv_W
  aftercall spn.ComputeScope PS = $gv_PS
  ensures r ==> at(Z, 0, S) && (forall p int, i int :: {ch(Z.arr[p])[i]} 0 <= p && p < Z.hi && 0 <= i && i < len(ch(Z.arr[p])) ==> at(Z, 0, ch(Z.arr[p])[i]) || isLeaf(ch(Z.arr[p])[i]))
  ensures r ==> (forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi && isProd(Z.arr[p]) ==> disj(Z.arr[p]))
  ensures !r ==> !allDisj()
  loop 1
    init Z = Q.view
    step Z = Q.view
    invariant Z == Q.view && bfs(Q.view, V) && vis(V, S) && Q.view.lo == $k && bfsCl(Q.view, V, $k)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isProd(Q.view.arr[p]) ==> disj(Q.view.arr[p])
  endloop
  loop 2
    invariant forall w int :: {in(w, v)} {v[w]} in(w, v) ==> inSc(s, w) && pos(s, w, PS) < $k && v[w] == 1
    invariant forall j int :: {sc[j]} 0 <= j && j < $k ==> in(sc[j], v)
  endloop
  loop 3
    init t = 0
    invariant forall w int :: {in(w, v)} {v[w]} {inSc(s, w)} in(w, v) == inSc(s, w) && (in(w, v) ==> v[w] == 1 + cnt(ci(s, w), $k))
    invariant paired(F, H, t, sc, v) && n == len(sc) - t
    invariant two(v) ==> t == len(sc)
    apply two(v) ==> pigeons(F, t, len(sc))
    apply two(v) ==> pigeons(H, len(sc), t)
  endloop
  loop 4
    step F = store(F, t, pos(s, csc[$k-1], PS))
    step H = store(H, pos(s, csc[$k-1], PS), t)
    step t = t + 1
    invariant forall w int :: {in(w, v)} {v[w]} {inSc(s, w)} in(w, v) == inSc(s, w) && (in(w, v) ==> v[w] == 1 + cnt(ci(s, w), $k3) + ite(inSc(c, w) && pos(c, w, PS) < $k, 1, 0))
    invariant paired(F, H, t, sc, v) && t == pre(t) + $k
  endloop
  loop 5
    invariant forall w int :: {$done[w]} $done[w] ==> v[w] == 2
  endloop
  loop 6
    invariant bfs(Q.view, V) && vis(V, S) && Q.view.lo == pre(Q.view).lo && Q.view.hi >= pre(Q.view).hi
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < pre(Q.view).hi ==> Q.view.arr[p] == pre(Q.view).arr[p]
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i]) || isLeaf(ch(s)[i])
  endloop
property C10 spn.ComputeScope spn.Complete spn.Decomposable spn.SPN.rawSc spn.SPN.setRawSc lemma:cnt_le lemma:cnt_all lemma:cnt_full lemma:cnt_pos lemma:cnt_two lemma:cnt_none lemma:cnt_one lemma:find_spec lemma:pigeons lemma:sub_len
