package spn
// node(n): n belongs to the network; an arbitrary set closed under children (so that "listed is within every
// such set, and is itself closed and contains the root" says exactly "listed is the set of reachable nodes").
// rank: a measure of acyclicity.
theory net
fun node(n ref) bool
fun rank(n ref) int
endtheory
def ch(n ref) []SPN = fld("spn.Node.ch", n)
def netOK() bool = (forall n ref, i int :: {ch(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> node(ch(n)[i]) && rank(ch(n)[i]) < rank(n)) && (forall n ref :: {node(n)} node(n) ==> n != nil && rank(n) >= 0 && implements(n, "spn.SPN"))
def vis(V map[SPN]bool, n ref) bool = in(n, V) && V[n]
// n is listed in view v at its recorded position, at or after b
def at(v View, b int, n ref) bool = b <= v.idx[n] && v.idx[n] < v.hi && v.arr[v.idx[n]] == n
// the part of v from position b on lists its elements once, children first
def sorted(v View, b int) bool = (forall p int :: {v.arr[p]} b <= p && p < v.hi ==> node(v.arr[p]) && v.idx[v.arr[p]] == p) && (forall p int, i int :: {ch(v.arr[p])[i]} b <= p && p < v.hi && 0 <= i && i < len(ch(v.arr[p])) ==> at(v, b, ch(v.arr[p])[i]) && v.idx[ch(v.arr[p])[i]] < p)
def extends(v View, o View) bool = v.lo == o.lo && v.hi >= o.hi && (forall p int :: {v.arr[p]} p < o.hi ==> v.arr[p] == o.arr[p])

// a stack v of nodes: each is visited or has its latest occurrence at its recorded position
def stkOK(v View, V map[SPN]bool) bool = v.lo <= v.hi && (forall p int :: {v.arr[p]} v.lo <= p && p < v.hi ==> node(v.arr[p]) && (vis(V, v.arr[p]) || (at(v, v.lo, v.arr[p]) && p <= v.idx[v.arr[p]])))
// expanded, not yet listed nodes stay on the stack, above them only nodes of smaller rank
def expOK(v View, V map[SPN]bool, P map[SPN]bool) bool = (forall n ref :: {in(n, P)} vis(P, n) && !vis(V, n) ==> node(n) && at(v, v.lo, n)) && (forall n ref, p int :: {in(n, P), v.arr[p]} vis(P, n) && !vis(V, n) && v.idx[n] < p && p < v.hi ==> rank(v.arr[p]) < rank(n))
// listed exactly the visited nodes, children first
def lstOK(v View, b int, V map[SPN]bool) bool = (forall n ref :: {in(n, V)} vis(V, n) ==> at(v, b, n)) && (forall p int :: {v.arr[p]} b <= p && p < v.hi ==> vis(V, v.arr[p])) && sorted(v, b)
def grey(v View, V map[SPN]bool, n ref) bool = vis(V, n) && !at(v, v.lo, n)

func SPN.Ch(n) (r)
  ensures r == ch(n)

// every node of the list other than G is the pix-th child of a listed node par
def linked(v View, b int, par [ref]ref, pix [ref]int, G ref) bool = forall p int :: {v.arr[p]} b <= p && p < v.hi && v.arr[p] != G ==> at(v, b, par[v.arr[p]]) && 0 <= pix[v.arr[p]] && pix[v.arr[p]] < len(ch(par[v.arr[p]])) && ch(par[v.arr[p]])[pix[v.arr[p]]] == v.arr[p]
def kidOf(par [ref]ref, pix [ref]int, P map[SPN]bool, G ref, n ref) bool = n == G || (vis(P, par[n]) && 0 <= pix[n] && pix[n] < len(ch(par[n])) && ch(par[n])[pix[n]] == n)
func TopSortTarjan(G, C) (r)
  requires netOK() && node(G)
  modifies C.view
  ghostvar b int
  ghostvar par [ref]ref
  ghostvar pix [ref]int
  ensures C != nil ==> r == C && extends(C.view, old(C.view)) && at(C.view, old(C.view).hi, G) && sorted(C.view, old(C.view).hi)
  ensures C == nil ==> fresh(r) && at(r.view, r.view.lo, G) && sorted(r.view, r.view.lo)
  ensures+ C != nil ==> linked(C.view, old(C.view).hi, par, pix, G)
  ensures+ C == nil ==> linked(r.view, r.view.lo, par, pix, G)
  loop 1
    init b = C.view.hi
    invariant b == pre(C.view).hi && extends(C.view, pre(C.view))
    invariant stkOK(S.view, V) && expOK(S.view, V, P)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
    invariant forall n ref, i int :: {ch(n)[i]} vis(P, n) && !vis(V, n) && 0 <= i && i < len(ch(n)) ==> vis(V, ch(n)[i]) || (at(S.view, S.view.lo, ch(n)[i]) && S.view.idx[ch(n)[i]] > S.view.idx[n])
    invariant lstOK(C.view, b, V)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> vis(P, n)
    invariant forall n ref :: {in(n, P)} vis(P, n) ==> kidOf(par, pix, P, G, n)
    invariant forall p int :: {S.view.arr[p]} S.view.lo <= p && p < S.view.hi ==> kidOf(par, pix, P, G, S.view.arr[p])
  endloop
  loop 2
    step par = store(par, ch(u)[$k-1], u)
    step pix = store(pix, ch(u)[$k-1], $k - 1)
    invariant stkOK(S.view, V) && expOK(S.view, V, P)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
    invariant forall n ref, i int :: {ch(n)[i]} vis(P, n) && !vis(V, n) && 0 <= i && i < len(ch(n)) && (n != u || i < $k) ==> vis(V, ch(n)[i]) || (at(S.view, S.view.lo, ch(n)[i]) && S.view.idx[ch(n)[i]] > S.view.idx[n])
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> vis(P, n)
    invariant forall n ref :: {in(n, P)} vis(P, n) ==> kidOf(par, pix, P, G, n)
    invariant forall p int :: {S.view.arr[p]} S.view.lo <= p && p < S.view.hi ==> kidOf(par, pix, P, G, S.view.arr[p])
  endloop

// f is called on every node when it is listed, in that order; the sort is complete unless f returned false
func TopSortTarjanFunc(G, C, f) (r)
  requires netOK() && node(G)
  modifies C.view
  ghostvar b int
  ensures C != nil ==> r == C && extends(C.view, old(C.view)) && sorted(C.view, old(C.view).hi)
  ensures C == nil ==> fresh(r) && sorted(r.view, r.view.lo)
  ensures r.view.hi - b == calls_f.hi && (C != nil ==> b == old(C.view).hi) && (C == nil ==> b == r.view.lo)
  ensures forall p int :: {calls_f.arr[p]} 0 <= p && p < calls_f.hi ==> calls_f.arr[p] == r.view.arr[b + p]
  ensures forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi - 1 ==> res_f[p]
  ensures at(r.view, b, G) || (calls_f.hi > 0 && !res_f[calls_f.hi - 1])
  loop 1
    init b = C.view.hi
    invariant b == pre(C.view).hi && extends(C.view, pre(C.view))
    invariant stkOK(S.view, V) && expOK(S.view, V, P)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
    invariant forall n ref, i int :: {ch(n)[i]} vis(P, n) && !vis(V, n) && 0 <= i && i < len(ch(n)) ==> vis(V, ch(n)[i]) || (at(S.view, S.view.lo, ch(n)[i]) && S.view.idx[ch(n)[i]] > S.view.idx[n])
    invariant lstOK(C.view, b, V)
    invariant calls_f.hi == C.view.hi - b
    invariant forall p int :: {calls_f.arr[p]} 0 <= p && p < calls_f.hi ==> calls_f.arr[p] == C.view.arr[b + p]
    invariant forall p int :: {res_f[p]} 0 <= p && p < calls_f.hi ==> res_f[p]
  endloop
  loop 2
    invariant stkOK(S.view, V) && expOK(S.view, V, P)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
    invariant forall n ref, i int :: {ch(n)[i]} vis(P, n) && !vis(V, n) && 0 <= i && i < len(ch(n)) && (n != u || i < $k) ==> vis(V, ch(n)[i]) || (at(S.view, S.view.lo, ch(n)[i]) && S.view.idx[ch(n)[i]] > S.view.idx[n])
  endloop

func TopSortDFS(G, C) (r)
  requires netOK() && node(G)
  modifies C.view
  ghostvar b int
  ensures C != nil ==> r == C && extends(C.view, old(C.view)) && at(C.view, old(C.view).hi, G) && sorted(C.view, old(C.view).hi)
  ensures C == nil ==> fresh(r) && at(r.view, r.view.lo, G) && sorted(r.view, r.view.lo)
  loop 1
    init b = C.view.hi
    invariant b == pre(C.view).hi && extends(C.view, pre(C.view))
    invariant stkOK(S.view, V)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
    invariant lstOK(C.view, b, V)
  endloop
  loop 2
    invariant arr(m) == 0 || fresh(m)
    invariant forall j int :: {m[j]} 0 <= j && j < len(m) ==> node(m[j])
    invariant len(m) == 0 ==> (forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i]))
  endloop
  loop 3
    invariant stkOK(S.view, V)
    invariant vis(V, G) || at(S.view, S.view.lo, G)
  endloop

// V: visited; visited nodes that are not listed yet are being visited, and have a larger rank
func visit(S, C, V)
  requires netOK() && node(S) && V != nil && C != nil && C.view.lo <= C.view.hi
  requires sorted(C.view, C.view.lo) && (forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p]))
  requires forall n ref :: {in(n, V)} grey(C.view, V, n) ==> rank(n) > rank(S)
  modifies C.view, map(V)
  decreases rank(S)
  ensures extends(C.view, old(C.view)) && sorted(C.view, C.view.lo) && at(C.view, C.view.lo, S)
  ensures forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p])
  ensures forall n ref :: {in(n, V)} grey(C.view, V, n) == old(grey(C.view, V, n))
  loop 1
    invariant extends(C.view, old(C.view)) && sorted(C.view, C.view.lo) && grey(C.view, V, S)
    invariant forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p])
    invariant forall n ref :: {in(n, V)} n != S ==> grey(C.view, V, n) == old(grey(C.view, V, n))
    invariant forall i int :: {ch(S)[i]} 0 <= i && i < $k ==> at(C.view, C.view.lo, ch(S)[i])
  endloop
func TopSortTarjanRec(G, C) (r)
  requires netOK() && node(G)
  requires C != nil ==> C.view.lo == C.view.hi
  modifies C.view
  ensures (C != nil ==> r == C && C.view.lo == old(C.view).lo) && (C == nil ==> fresh(r))
  ensures at(r.view, r.view.lo, G) && sorted(r.view, r.view.lo)
func postOrderRec(n, V, C)
  requires netOK() && node(n) && V != nil && C != nil && C.view.lo <= C.view.hi
  requires sorted(C.view, C.view.lo) && (forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p]))
  requires grey(C.view, V, n) && (forall m ref :: {in(m, V)} grey(C.view, V, m) ==> m == n || rank(m) > rank(n))
  modifies C.view, map(V)
  decreases rank(n)
  ensures extends(C.view, old(C.view)) && sorted(C.view, C.view.lo) && at(C.view, C.view.lo, n)
  ensures forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p])
  ensures forall m ref :: {in(m, V)} m != n ==> grey(C.view, V, m) == old(grey(C.view, V, m))
  loop 1
    invariant extends(C.view, old(C.view)) && sorted(C.view, C.view.lo) && grey(C.view, V, n)
    invariant forall p int :: {C.view.arr[p]} C.view.lo <= p && p < C.view.hi ==> vis(V, C.view.arr[p])
    invariant forall m ref :: {in(m, V)} m != n ==> grey(C.view, V, m) == old(grey(C.view, V, m))
    invariant forall i int :: {ch(n)[i]} 0 <= i && i < $k ==> at(C.view, C.view.lo, ch(n)[i])
  endloop
func PostOrder(G, C) (r)
  requires netOK() && node(G)
  requires C != nil ==> C.view.lo == C.view.hi
  modifies C.view
  ensures (C != nil ==> r == C && C.view.lo == old(C.view).lo) && (C == nil ==> fresh(r))
  ensures at(r.view, r.view.lo, G) && sorted(r.view, r.view.lo)

property C01 spn.TopSortTarjan spn.TopSortTarjanFunc spn.TopSortDFS spn.TopSortTarjanRec spn.PostOrder spn.SPN.Ch
