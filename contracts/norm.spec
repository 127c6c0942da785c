package spn
// ---- normalisation of weights ----
theory wsum
rec sumr(a [int]F, n int) Real = ite(n <= 0, 0.0, sumr(a, n-1) + rv(a[n-1]))
// the smallest of zero and a[0..n-1]
rec minr(a [int]F, n int) Real = ite(n <= 0, 0.0, ite(rv(a[n-1]) < minr(a, n-1), rv(a[n-1]), minr(a, n-1)))
lemma sum_shift(a [int]F, b [int]F, m Real, n int) induct n
  requires n >= 0 && (forall i int :: {b[i]} 0 <= i && i < n ==> rv(b[i]) == rv(a[i]) - m)
  ensures sumr(b, n) == sumr(a, n) - real(n) * m
  noauto
lemma sum_scale(a [int]F, b [int]F, t Real, n int) induct n
  requires t > 0.0 && (forall i int :: {b[i]} 0 <= i && i < n ==> rv(b[i]) == rv(a[i]) / t)
  ensures sumr(b, n) == sumr(a, n) / t
  noauto
lemma min_np(a [int]F, n int) induct n
  ensures minr(a, n) <= 0.0
lemma min_le(a [int]F, n int, i int) induct n
  requires 0 <= i && i < n
  ensures minr(a, n) <= rv(a[i])
lemma min_pos(a [int]F, n int) induct n
  requires forall i int :: {a[i]} 0 <= i && i < n ==> rv(a[i]) >= 0.0
  ensures minr(a, n) == 0.0
  noauto
lemma div_nn2(x Real, t Real)
  requires t > 0.0 && x >= 0.0
  ensures x / t >= 0.0
endtheory
// the total after shifting so that nothing is negative
def tot(a [int]F, n int) Real = sumr(a, n) - real(n) * minr(a, n)
def finAll(v []float64) bool = forall i int :: {v[i]} 0 <= i && i < len(v) ==> fin(v[i])
// b is a, shifted so that nothing is negative and divided by the total
def normed(a [int]F, b [int]F, n int) bool = forall i int :: {b[i]} 0 <= i && i < n ==> fin(b[i]) && rv(b[i]) == (rv(a[i]) - minr(a, n)) / tot(a, n)

func norm(v)
  uses wsum
  requires finAll(v) && tot(elems(v), len(v)) > 0.0
  modifies elems(v)
  ghostvar A [int]F
  apply old(forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0) ==> min_pos(old(elems(v)), len(v))
  apply sum_shift(old(elems(v)), A, minr(old(elems(v)), len(v)), len(v))
  apply sum_scale(A, elems(v), tot(old(elems(v)), len(v)), len(v))
  ensures normed(old(elems(v)), elems(v), len(v))
  ensures forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0
  ensures sumr(elems(v), len(v)) == 1.0
  ensures old(forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0) ==> minr(old(elems(v)), len(v)) == 0.0
  loop 1
    invariant fin(min) && rv(min) == minr(elems(v), $k)
  endloop
  loop 2
    invariant forall i int :: {v[i]} 0 <= i && i < $k ==> fin(v[i]) && rv(v[i]) == old(rv(v[i])) - rv(min)
    invariant forall i int :: {v[i]} $k <= i && i < len(v) ==> v[i] == old(v[i])
  endloop
  loop 3
    invariant fin(norm) && rv(norm) == sumr(old(elems(v)), $k) - real($k) * rv(min)
  endloop
  loop 4
    init A = elems(v)
    invariant A == pre(elems(v)) && rv(norm) > 0.0
    invariant forall i int :: {v[i]} 0 <= i && i < $k ==> fin(v[i]) && rv(v[i]) == rv(A[i]) / rv(norm)
    invariant forall i int :: {v[i]} $k <= i && i < len(v) ==> v[i] == A[i]
  endloop

// every sum has its own weights, finite and with a positive total after shifting
theory own
fun wown(a int) ref
endtheory
def kinds() bool = forall n ref :: {node(n)} node(n) ==> isSum(n) || isProd(n) || isLeaf(n)
def wtsOK() bool = forall n ref :: {node(n)} node(n) && isSum(n) ==> finAll(wt(n)) && tot(elems(wt(n)), len(wt(n))) > 0.0 && wown(arr(wt(n))) == n
def isNormed(n ref) bool = normed(old(elems(wt(n))), elems(wt(n)), len(wt(n))) && sumr(elems(wt(n)), len(wt(n))) == 1.0 && (forall i int :: {wt(n)[i]} 0 <= i && i < len(wt(n)) ==> rv(wt(n)[i]) >= 0.0)
// breadth-first search: everything seen is a node and stands once in the queue's history
def bfs(q View, V map[SPN]bool) bool = (forall n ref :: {in(n, V)} vis(V, n) ==> node(n) && at(q, 0, n)) && (forall p int :: {q.arr[p]} 0 <= p && p < q.hi ==> vis(V, q.arr[p]) && q.idx[q.arr[p]] == p) && 0 <= q.lo && q.lo <= q.hi
func NormalizeSPN(S) (r)
  uses wsum own
  requires netOK() && kinds() && node(S) && wtsOK()
  modifies all("e.float64")
  ghostvar Z View
  ensures r == S && at(Z, 0, S)
  // Z: the nodes reachable from the root, each once
  ensures forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi ==> node(Z.arr[p]) && Z.idx[Z.arr[p]] == p
  ensures forall p int, i int :: {ch(Z.arr[p])[i]} 0 <= p && p < Z.hi && 0 <= i && i < len(ch(Z.arr[p])) ==> at(Z, 0, ch(Z.arr[p])[i])
  ensures forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi && isSum(Z.arr[p]) ==> isNormed(Z.arr[p])
  // nothing but their weights changes
  ensures forall w []float64 :: {elems(w)} arr(w) != 0 && !fresh(w) && !(at(Z, 0, wown(arr(w))) && isSum(wown(arr(w))) && arr(w) == arr(wt(wown(arr(w))))) ==> elems(w) == old(elems(w))
  loop 1
    init Z = Q.view
    step Z = Q.view
    invariant Z == Q.view && bfs(Q.view, V) && vis(V, S) && Q.view.lo == $k
    invariant forall p int, i int :: {ch(Q.view.arr[p])[i]} 0 <= p && p < $k && 0 <= i && i < len(ch(Q.view.arr[p])) ==> vis(V, ch(Q.view.arr[p])[i])
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> isNormed(Q.view.arr[p])
    invariant forall n ref :: {node(n)} node(n) && isSum(n) && !(at(Q.view, 0, n) && Q.view.idx[n] < $k) ==> elems(wt(n)) == old(elems(wt(n))) && finAll(wt(n))
    invariant forall w []float64 :: {elems(w)} arr(w) != 0 && !fresh(w) && !(at(Q.view, 0, wown(arr(w))) && Q.view.idx[wown(arr(w))] < $k && isSum(wown(arr(w))) && arr(w) == arr(wt(wown(arr(w))))) ==> elems(w) == old(elems(w))
  endloop
  loop 2
    invariant bfs(Q.view, V) && vis(V, S) && Q.view.lo == pre(Q.view).lo && Q.view.hi >= pre(Q.view).hi
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < pre(Q.view).hi ==> Q.view.arr[p] == pre(Q.view).arr[p]
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i])
  endloop

package learn
func Normalize(v)
  uses wsum
  requires finAll(v) && tot(elems(v), len(v)) > 0.0
  modifies elems(v)
  ghostvar A [int]F
  apply old(forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0) ==> min_pos(old(elems(v)), len(v))
  apply sum_shift(old(elems(v)), A, minr(old(elems(v)), len(v)), len(v))
  apply sum_scale(A, elems(v), tot(old(elems(v)), len(v)), len(v))
  ensures normed(old(elems(v)), elems(v), len(v))
  ensures forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0
  ensures sumr(elems(v), len(v)) == 1.0
  ensures old(forall i int :: {v[i]} 0 <= i && i < len(v) ==> rv(v[i]) >= 0.0) ==> minr(old(elems(v)), len(v)) == 0.0
  loop 1
    invariant fin(min) && rv(min) == minr(elems(v), $k)
  endloop
  loop 2
    invariant forall i int :: {v[i]} 0 <= i && i < $k ==> fin(v[i]) && rv(v[i]) == old(rv(v[i])) - rv(min)
    invariant forall i int :: {v[i]} $k <= i && i < len(v) ==> v[i] == old(v[i])
  endloop
  loop 3
    invariant fin(norm) && rv(norm) == sumr(old(elems(v)), $k) - real($k) * rv(min)
  endloop
  loop 4
    init A = elems(v)
    invariant A == pre(elems(v)) && rv(norm) > 0.0
    invariant forall i int :: {v[i]} 0 <= i && i < $k ==> fin(v[i]) && rv(v[i]) == rv(A[i]) / rv(norm)
    invariant forall i int :: {v[i]} $k <= i && i < len(v) ==> v[i] == A[i]
  endloop

property C08 spn.norm spn.NormalizeSPN learn.Normalize lemma:sum_shift lemma:sum_scale lemma:min_le lemma:min_np lemma:min_pos lemma:div_nn2
