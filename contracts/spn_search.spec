package spn
// ---- graph search ----
// dp[n], di[n]: position of the call that discovered n, and through which child
def lexlt(a int, b int, c int, d int) bool = a < c || (a == c && b < d)
def lexle(a int, b int, c int, d int) bool = a < c || (a == c && b <= d)
// the calls so far list distinct nodes, each discovered by an earlier call that answered 0
def called(v View, res [int]int, dp [ref]int, di [ref]int, k int, n ref, G ref) bool = ite(n == G, dp[n] == 0 - 1, 0 <= dp[n] && dp[n] < k && res[dp[n]] == 0 && 0 <= di[n] && di[n] < len(ch(v.arr[dp[n]])) && ch(v.arr[dp[n]])[di[n]] == n)
def calls1(v View, res [int]int, dp [ref]int, di [ref]int, G ref) bool = v.lo == 0 && v.hi >= 0 && (v.hi > 0 ==> v.arr[0] == G) && (forall p int :: {v.arr[p]} 0 <= p && p < v.hi ==> node(v.arr[p]) && v.idx[v.arr[p]] == p && called(v, res, dp, di, p, v.arr[p], G))
// a node is known at once after the first call answering 0 on one of its parents
def firstSeen(v View, dp [ref]int, di [ref]int, n ref, p int, i int) bool = lexle(dp[n], di[n], p, i)

func BreadthFirst(G, f)
  requires netOK() && node(G)
  ghostvar dp [ref]int
  ghostvar di [ref]int
  ghostvar H int
  // called on the root, then on nodes discovered by earlier calls, never twice on the same node
  ensures calls_f.hi > 0 && calls1(calls_f, res_f, dp, di, G)
  // after a positive answer there are no further calls
  ensures forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi - 1 ==> res_f[p] <= 0
  // unless stopped, all children of nodes on which f answers 0 are called
  ensures res_f[calls_f.hi - 1] <= 0 ==> (forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) ==> at(calls_f, 0, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i))
  // breadth first: in order of discovery
  ensures forall p int, q int :: {calls_f.arr[p], calls_f.arr[q]} 0 <= p && p < q && q < calls_f.hi ==> lexlt(dp[calls_f.arr[p]], di[calls_f.arr[p]], dp[calls_f.arr[q]], di[calls_f.arr[q]])
  loop 1
    init dp = store(dp, G, 0 - 1)
    init di = store(di, G, 0)
    invariant bfs(C.view, V) && vis(V, G) && calls_f.hi == C.view.lo && C.view.arr[0] == G && calls1(calls_f, res_f, dp, di, G)
    invariant forall p int :: {calls_f.arr[p]} {C.view.arr[p]} 0 <= p && p < calls_f.hi ==> calls_f.arr[p] == C.view.arr[p]
    invariant forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi ==> res_f[p] <= 0
    invariant forall p int :: {C.view.arr[p]} 0 <= p && p < C.view.hi ==> called(calls_f, res_f, dp, di, calls_f.hi, C.view.arr[p], G)
    invariant forall p int, q int :: {C.view.arr[p], C.view.arr[q]} 0 <= p && p < q && q < C.view.hi ==> lexlt(dp[C.view.arr[p]], di[C.view.arr[p]], dp[C.view.arr[q]], di[C.view.arr[q]])
    invariant forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) ==> vis(V, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i)
  endloop
  loop 2
    init H = C.view.hi
    step dp = ite(C.view.hi > H, store(dp, ch(u)[$k-1], calls_f.hi - 1), dp)
    step di = ite(C.view.hi > H, store(di, ch(u)[$k-1], $k - 1), di)
    step H = C.view.hi
    invariant H == C.view.hi && bfs(C.view, V) && vis(V, G) && calls_f.hi == C.view.lo && C.view.arr[0] == G && calls1(calls_f, res_f, dp, di, G)
    invariant forall p int :: {calls_f.arr[p]} {C.view.arr[p]} 0 <= p && p < calls_f.hi ==> calls_f.arr[p] == C.view.arr[p]
    invariant forall p int :: {C.view.arr[p]} 0 <= p && p < C.view.hi ==> called(calls_f, res_f, dp, di, calls_f.hi, C.view.arr[p], G) && lexlt(dp[C.view.arr[p]], di[C.view.arr[p]], calls_f.hi - 1, $k)
    invariant forall p int, q int :: {C.view.arr[p], C.view.arr[q]} 0 <= p && p < q && q < C.view.hi ==> lexlt(dp[C.view.arr[p]], di[C.view.arr[p]], dp[C.view.arr[q]], di[C.view.arr[q]])
    invariant forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) && (p < calls_f.hi - 1 || i < $k) ==> vis(V, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i)
  endloop

def onStk(v View, V map[SPN]bool, cl View) bool = v.lo == 0 && v.hi >= 0 && (forall p int :: {v.arr[p]} 0 <= p && p < v.hi ==> vis(V, v.arr[p]) && v.idx[v.arr[p]] == p && !at(cl, 0, v.arr[p])) && (forall n ref :: {in(n, V)} vis(V, n) ==> node(n) && (at(v, 0, n) || at(cl, 0, n)))
func DepthFirst(G, f)
  requires netOK() && node(G)
  ghostvar dp [ref]int
  ghostvar di [ref]int
  ghostvar H int
  ensures calls_f.hi > 0 && calls1(calls_f, res_f, dp, di, G)
  ensures forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi - 1 ==> res_f[p] <= 0
  ensures res_f[calls_f.hi - 1] <= 0 ==> (forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) ==> at(calls_f, 0, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i))
  // depth first: of the nodes discovered before a call, the last discovered is taken
  ensures forall p int, q int :: {calls_f.arr[p], calls_f.arr[q]} 0 <= p && p < q && q < calls_f.hi && dp[calls_f.arr[q]] < p ==> lexlt(dp[calls_f.arr[q]], di[calls_f.arr[q]], dp[calls_f.arr[p]], di[calls_f.arr[p]])
  loop 1
    init dp = store(dp, G, 0 - 1)
    init di = store(di, G, 0)
    invariant onStk(C.view, V, calls_f) && vis(V, G) && (calls_f.hi == 0 ==> C.view.hi == 1 && C.view.arr[0] == G) && calls1(calls_f, res_f, dp, di, G)
    invariant forall p int :: {calls_f.arr[p]} 0 <= p && p < calls_f.hi ==> vis(V, calls_f.arr[p])
    invariant forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi ==> res_f[p] <= 0
    invariant forall p int :: {C.view.arr[p]} 0 <= p && p < C.view.hi ==> called(calls_f, res_f, dp, di, calls_f.hi, C.view.arr[p], G)
    invariant forall p int, q int :: {C.view.arr[p], C.view.arr[q]} 0 <= p && p < q && q < C.view.hi ==> lexlt(dp[C.view.arr[p]], di[C.view.arr[p]], dp[C.view.arr[q]], di[C.view.arr[q]])
    invariant forall p int, q int :: {calls_f.arr[p], C.view.arr[q]} 0 <= p && p < calls_f.hi && 0 <= q && q < C.view.hi && dp[C.view.arr[q]] < p ==> lexlt(dp[C.view.arr[q]], di[C.view.arr[q]], dp[calls_f.arr[p]], di[calls_f.arr[p]])
    invariant forall p int, q int :: {calls_f.arr[p], calls_f.arr[q]} 0 <= p && p < q && q < calls_f.hi && dp[calls_f.arr[q]] < p ==> lexlt(dp[calls_f.arr[q]], di[calls_f.arr[q]], dp[calls_f.arr[p]], di[calls_f.arr[p]])
    invariant forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) ==> vis(V, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i)
  endloop
  loop 2
    init H = C.view.hi
    step dp = ite(C.view.hi > H, store(dp, ch(u)[$k-1], calls_f.hi - 1), dp)
    step di = ite(C.view.hi > H, store(di, ch(u)[$k-1], $k - 1), di)
    step H = C.view.hi
    invariant H == C.view.hi && onStk(C.view, V, calls_f) && vis(V, G) && calls1(calls_f, res_f, dp, di, G)
    invariant forall p int :: {calls_f.arr[p]} 0 <= p && p < calls_f.hi ==> vis(V, calls_f.arr[p])
    invariant forall p int :: {C.view.arr[p]} 0 <= p && p < C.view.hi ==> called(calls_f, res_f, dp, di, calls_f.hi, C.view.arr[p], G)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> lexlt(dp[n], di[n], calls_f.hi - 1, $k)
    invariant forall p int, q int :: {C.view.arr[p], C.view.arr[q]} 0 <= p && p < q && q < C.view.hi ==> lexlt(dp[C.view.arr[p]], di[C.view.arr[p]], dp[C.view.arr[q]], di[C.view.arr[q]])
    invariant forall p int, q int :: {calls_f.arr[p], C.view.arr[q]} 0 <= p && p < calls_f.hi && 0 <= q && q < C.view.hi && dp[C.view.arr[q]] < p ==> lexlt(dp[C.view.arr[q]], di[C.view.arr[q]], dp[calls_f.arr[p]], di[calls_f.arr[p]])
    invariant forall p int, q int :: {calls_f.arr[p], calls_f.arr[q]} 0 <= p && p < q && q < calls_f.hi && dp[calls_f.arr[q]] < p ==> lexlt(dp[calls_f.arr[q]], di[calls_f.arr[q]], dp[calls_f.arr[p]], di[calls_f.arr[p]])
    invariant forall p int, i int :: {ch(calls_f.arr[p])[i]} 0 <= p && p < calls_f.hi && res_f[p] == 0 && 0 <= i && i < len(ch(calls_f.arr[p])) && (p < calls_f.hi - 1 || i < $k) ==> vis(V, ch(calls_f.arr[p])[i]) && firstSeen(calls_f, dp, di, ch(calls_f.arr[p])[i], p, i)
  endloop

def kindOf(n ref) int = ite(isSum(n), 1, ite(isProd(n), 2, 3))
theory counts
uses net
rec nkind(a [int]ref, k int, t int) int = ite(k <= 0, 0, nkind(a, k-1, t) + ite(kindOf(a[k-1]) == t, 1, 0))
lemma nkind_store(a [int]ref, k int, t int, i int, x ref) induct k
  requires i >= k
  ensures nkind(store(a, i, x), k, t) == nkind(a, k, t)
  trigger nkind(store(a, i, x), k, t)
endtheory
// Z lists the reachable nodes once each; the numbers of sums, products and leaves among them are returned
func CountNodes(G) (s, p, l)
  uses counts
  requires netOK() && kinds() && node(G)
  ghostvar Z View
  ensures at(Z, 0, G) && (forall q int :: {Z.arr[q]} 0 <= q && q < Z.hi ==> node(Z.arr[q]) && Z.idx[Z.arr[q]] == q)
  ensures forall q int, i int :: {ch(Z.arr[q])[i]} 0 <= q && q < Z.hi && 0 <= i && i < len(ch(Z.arr[q])) ==> at(Z, 0, ch(Z.arr[q])[i])
  ensures s == nkind(Z.arr, Z.hi, 1) && p == nkind(Z.arr, Z.hi, 2) && l == nkind(Z.arr, Z.hi, 3)
  loop 1
    init Z = C.view
    step Z = C.view
    invariant Z == C.view && bfs(C.view, V) && vis(V, G)
    invariant forall q int, i int :: {ch(Z.arr[q])[i]} 0 <= q && q < C.view.lo && 0 <= i && i < len(ch(C.view.arr[q])) ==> vis(V, ch(C.view.arr[q])[i])
    invariant s == nkind(C.view.arr, C.view.lo, 1) && p == nkind(C.view.arr, C.view.lo, 2) && l == nkind(C.view.arr, C.view.lo, 3)
  endloop
  loop 2
    invariant bfs(C.view, V) && vis(V, G) && C.view.lo == pre(C.view).lo && C.view.hi >= pre(C.view).hi
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall q int :: {C.view.arr[q]} 0 <= q && q < pre(C.view).hi ==> C.view.arr[q] == pre(C.view).arr[q]
    invariant forall i int :: {ch(u)[i]} 0 <= i && i < $k ==> vis(V, ch(u)[i])
    invariant s == nkind(C.view.arr, C.view.lo, 1) && p == nkind(C.view.arr, C.view.lo, 2) && l == nkind(C.view.arr, C.view.lo, 3)
  endloop

// hgt: the length of a longest path to a node without children
theory heights
uses net
fun hgt(n ref) int
rec maxh(h [int]int, k int) int = ite(k <= 0, 0, ite(h[k-1] + 1 > maxh(h, k-1), h[k-1] + 1, maxh(h, k-1)))
fun hs(n ref) [int]int
lemma maxh_nn(h [int]int, k int) induct k
  requires k >= 0
  ensures maxh(h, k) >= 0 && (k == 0 ==> maxh(h, k) == 0)
  trigger maxh(h, k)
endtheory
def hgtOK() bool = (forall n ref :: {hgt(n)} node(n) ==> hgt(n) == maxh(hs(n), len(ch(n)))) && (forall n ref, i int :: {hs(n)[i]} {ch(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> hs(n)[i] == hgt(ch(n)[i]))
func ComputeHeight(S) (r)
  uses heights
  requires netOK() && node(S) && hgtOK()
  ghostvar W View
  ensures r == hgt(S)
  loop 1
    init W = T.view
    invariant W == pre(T.view) && taken(T.view, W)
    invariant forall q int :: {W.arr[q]} W.lo <= q && q < T.view.lo ==> in(W.arr[q], H) && H[W.arr[q]] == hgt(W.arr[q])
  endloop
  loop 2
    invariant h == maxh(hs(s), $k)
  endloop
func SPN.Height(n) (r)
  uses heights
  requires netOK() && node(n) && hgtOK()
  decreases rank(n)
  ensures r == hgt(n)
func Node.Height(n) (r)
  loop 1
    invariant v >= 0
    invariant v + 1 == maxh(hs(n), $k) || ($k == 0 && v == 0)
  endloop
property C24 spn.BreadthFirst spn.DepthFirst spn.CountNodes spn.ComputeHeight spn.SPN.Height lemma:nkind_store lemma:maxh_nn
