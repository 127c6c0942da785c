package utils
func Mean(c) (r)
  uses leafs
  requires countsOK(c) && csum(elems(c), len(c)) > 0.0
  ensures r == F(cmean(elems(c), csum(elems(c), len(c)), len(c)))
  loop 1
    invariant real(n) == csum(elems(c), $k)
  endloop
  loop 2
    invariant m == F(cmean(elems(c), csum(elems(c), len(c)), $k))
  endloop
func StdDev(c) (r)
  uses leafs
  requires countsOK(c) && csum(elems(c), len(c)) > 0.0
  ensures r == fsqrt(F(cvar(elems(c), csum(elems(c), len(c)), cmean(elems(c), csum(elems(c), len(c)), len(c)), len(c))))
  loop 1
    invariant real(n) == csum(elems(c), $k)
  endloop
  loop 2
    invariant m == F(cmean(elems(c), csum(elems(c), len(c)), $k))
  endloop
  loop 3
    invariant s == F(cvar(elems(c), csum(elems(c), len(c)), rv(m), $k))
  endloop
func MuSigma(c) (a, b)
  uses leafs
  requires countsOK(c) && csum(elems(c), len(c)) > 0.0
  ensures a == F(cmean(elems(c), csum(elems(c), len(c)), len(c)))
  ensures b == fsqrt(F(cvar(elems(c), csum(elems(c), len(c)), rv(a), len(c))))
  loop 1
    invariant real(n) == csum(elems(c), $k)
  endloop
  loop 2
    invariant m == F(cmean(elems(c), csum(elems(c), len(c)), $k))
  endloop
  loop 3
    invariant s == F(cvar(elems(c), csum(elems(c), len(c)), rv(m), $k))
  endloop

theory quant
uses reals
// sum and squared deviations of a[lo .. lo+n)
rec qsum(a [int]int, lo int, n int) Real = ite(n <= 0, 0.0, qsum(a, lo, n-1) + real(a[lo+n-1]))
rec qsq(a [int]int, lo int, m Real, n int) Real = ite(n <= 0, 0.0, qsq(a, lo, m, n-1) + (real(a[lo+n-1]) - m) * (real(a[lo+n-1]) - m))
def qlo(i int, l int, k int) int = ite(i*l < k, i*l, k)
def qhi(i int, m int, l int, k int) int = ite(i == m-1 || (i+1)*l >= k, k, (i+1)*l)
// the parts are consecutive and cover everything
lemma quant_cover(i int, m int, l int, k int)
  requires 0 <= i && i < m && k >= 0 && l >= 1
  ensures qlo(0, l, k) == 0 && qhi(m-1, m, l, k) == k
  ensures i < m-1 ==> qhi(i, m, l, k) == qlo(i+1, l, k)
  ensures 0 <= qlo(i, l, k) && qlo(i, l, k) <= qhi(i, m, l, k) && qhi(i, m, l, k) <= k
  noauto
endtheory
// nominal size of a part
def qlen(k int, m int) int = ite(k < 2*m, 1, trunc(rv(fround(F(real(k) / real(m))))))
def qmu(X []int, lo int, n int) Real = qsum(elems(X), lo, n) / real(n)
def qsd(X []int, lo int, n int) F = fsqrt(F(qsq(elems(X), lo, qmu(X, lo, n), n) / real(n)))
def qpart(p []float64, X []int, lo int, hi int) bool = len(p) == 3 && p[2] == F(real(hi - lo)) && (hi > lo ==> p[0] == F(qmu(X, lo, hi - lo)) && p[1] == ite(qsd(X, lo, hi - lo) == F(0.0), F(0.5), qsd(X, lo, hi - lo)))
func PartitionQuantiles(X, m) (r)
  uses quant
  requires m >= 1
  ghostvar L int
  ensures len(r) == m && L == qlen(len(X), m) && L >= 1
  ensures forall i int :: {r[i]} 0 <= i && i < m ==> qpart(r[i], X, qlo(i, L, len(X)), qhi(i, m, L, len(X)))
  loop 1
    init L = l
    invariant L == l && L == qlen(len(X), m) && L >= 1 && len(P) == m && fresh(P)
    invariant forall j int :: {P[j]} 0 <= j && j < $k ==> qpart(P[j], X, qlo(j, L, len(X)), qhi(j, m, L, len(X)))
  endloop
  loop 2
    invariant (arr(Q) == 0 || fresh(Q)) && (i*l <= k ==> j == i*l + len(Q)) && (i*l > k ==> len(Q) == 0) && j >= i*l && (j <= q || len(Q) == 0) && j <= ite(k < i*l, i*l, k)
    invariant forall p int :: {Q[p]} 0 <= p && p < len(Q) ==> Q[p] == X[i*l+p]
  endloop
  loop 3
    invariant mu == F(qsum(elems(X), i*l, $k))
  endloop
  loop 4
    invariant len(Q) > 0 ==> mu == F(qmu(X, i*l, len(Q)))
    assert $k > 0 && x == X[i*l+($k-1)]
    invariant len(Q) > 0 ==> sigma == F(qsq(elems(X), i*l, rv(mu), $k))
  endloop
property C23 utils.Mean utils.StdDev utils.MuSigma utils.PartitionQuantiles lemma:quant_cover
