theory sumexp
uses reals
// sum of exp(a[i]) for i < n, where exp(-inf) = 0
rec sumexp(a [int]F, n int) Real = ite(n <= 0, 0.0, sumexp(a, n-1) + expr(a[n-1]))
lemma sumexp_nonneg(a [int]F, n int) induct n
  ensures sumexp(a, n) >= 0.0
  trigger sumexp(a, n)
lemma sumexp_ge(a [int]F, n int, i int) induct n
  requires 0 <= i && i < n
  ensures sumexp(a, n) >= expr(a[i])
  noauto
  apply sumexp_nonneg(a, n-1)
lemma sumexp_zero(a [int]F, n int) induct n
  requires forall i int :: 0 <= i && i < n ==> a[i] == NInf
  ensures sumexp(a, n) == 0.0
  noauto
lemma sumexp_ext(a [int]F, b [int]F, n int) induct n
  requires forall i int :: 0 <= i && i < n ==> a[i] == b[i]
  ensures sumexp(a, n) == sumexp(b, n)
  noauto
// signed sums: term i counts with the sign s[i]
def sgnx(s int, x Real) Real = ite(s > 0, x, ite(s < 0, 0.0 - x, 0.0))
rec ssum(a [int]F, s [int]int, n int) Real = ite(n <= 0, 0.0, ssum(a, s, n-1) + sgnx(s[n-1], expr(a[n-1])))
lemma ssum_zero(a [int]F, s [int]int, n int) induct n
  requires forall i int :: {a[i]} 0 <= i && i < n ==> s[i] == 0 || a[i] == NInf
  ensures ssum(a, s, n) == 0.0
  noauto
// sums and products of probabilities
rec rsum(a [int]F, n int) Real = ite(n <= 0, 0.0, rsum(a, n-1) + rv(a[n-1]))
rec rprod(a [int]F, n int) Real = ite(n <= 0, 1.0, rprod(a, n-1) * rv(a[n-1]))
lemma rsum_zero(a [int]F, n int) induct n
  requires forall i int :: {a[i]} 0 <= i && i < n ==> rv(a[i]) == 0.0
  ensures rsum(a, n) == 0.0
  noauto
endtheory

package utils
func LogSumExp(a []float64) (r float64)
  uses sumexp
  requires len(a) > 0
  requires forall i int :: 0 <= i && i < len(a) ==> fin(a[i]) || a[i] == NInf
  loop 1
    invariant exists j int :: 0 <= j && j < len(a) && max == a[j]
    invariant forall i int :: 0 <= i && i < $k ==> a[i] <= max
  loop 2
    invariant fin(l) && rv(l) * exp(rv(max)) == sumexp(elems(a), $k)
    invariant rv(l) >= 0.0
    invariant forall i int :: 0 <= i && i < $k && a[i] == max ==> rv(l) >= 1.0
  endloop
  apply r == NInf ==> sumexp_zero(elems(a), len(a))
  ensures r == logr(sumexp(elems(a), len(a)))

func LogSumExpPair(l float64, m float64) (r float64)
  uses reals
  requires fin(l) || l == NInf
  requires fin(m) || m == NInf
  ensures r == logr(expr(l) + expr(m))

func AntiLog(l float64) (r float64)
  uses reals
  requires fin(l) || l == NInf
  requires fin(l) ==> rv(l) <= 709.0
  ensures r == F(expr(l))

// the logarithm of the magnitude and the sign of a signed sum (sign 0: the sum is zero)
func LogSumLog(v, s) (l, g)
  uses sumexp
  requires len(s) >= len(v) && (forall i int :: {s[i]} 0 <= i && i < len(v) ==> 0 - 1 <= s[i] && s[i] <= 1)
  requires forall i int :: {v[i]} 0 <= i && i < len(v) ==> fin(v[i]) || v[i] == NInf
  apply g == 0 ==> ssum_zero(elems(v), elems(s), len(v))
  ensures 0 - 1 <= g && g <= 1 && (fin(l) || l == NInf)
  ensures sgnx(g, expr(l)) == ssum(elems(v), elems(s), len(v))
  loop 1
    invariant imax == 0 - 1 ==> max == NInf && simax == 1 && (forall i int :: {v[i]} 0 <= i && i < $k ==> s[i] == 0 || v[i] == NInf)
    invariant forall i int :: {v[i]} 0 <= i && i < $k && s[i] != 0 ==> v[i] <= max
    invariant imax == 0 - 1 || 0 <= imax && imax < $k && max == v[imax] && fin(max) && simax == s[imax] && simax != 0
  endloop
  loop 2
    invariant fin(r) && sgnx(simax, rv(r)) * exp(rv(p)) == ssum(elems(v), elems(s), $k) - ite(imax < $k, sgnx(simax, exp(rv(p))), 0.0)
  endloop
// the logarithm of the sum and of the product of probabilities
func LogSum(p) (r)
  uses sumexp
  requires forall i int :: {p[i]} 0 <= i && i < len(p) ==> fin(p[i]) && rv(p[i]) >= 0.0
  apply r == NInf ==> rsum_zero(elems(p), len(p))
  ensures r == logr(rsum(elems(p), len(p)))
  loop 1
    invariant pi == NInf || (exists j int :: 0 <= j && j < $k && rv(p[j]) > 0.0 && pi == F(ln(rv(p[j]))))
    invariant forall j int :: {p[j]} 0 <= j && j < $k ==> rv(p[j]) == 0.0 || (fin(pi) && ln(rv(p[j])) <= rv(pi))
  endloop
  loop 2
    invariant fin(lg) && rv(lg) * exp(rv(pi)) == rsum(elems(p), $k)
    invariant rv(lg) >= 0.0
    invariant forall j int :: {p[j]} 0 <= j && j < $k && rv(p[j]) > 0.0 && ln(rv(p[j])) == rv(pi) ==> rv(lg) >= 1.0
  endloop
func LogProd(p) (r)
  uses sumexp, logmul
  requires forall i int :: {p[i]} 0 <= i && i < len(p) ==> fin(p[i]) && rv(p[i]) >= 0.0
  ensures r == logr(rprod(elems(p), len(p)))
  loop 1
    apply logr_mul(rprod(elems(p), $k-1), rv(p[$k-1]))
    invariant rprod(elems(p), $k) >= 0.0 && lg == logr(rprod(elems(p), $k))
  endloop
func LogSumPair(p1, p2) (r)
  uses logmul
  requires fin(p1) && fin(p2) && rv(p1) >= 0.0 && rv(p2) >= 0.0
  apply rv(p1) > 0.0 ==> logr_mul(rv(p1), 1.0 + rv(p2) / rv(p1))
  ensures r == logr(rv(p1) + rv(p2))
property C04 utils.LogSumLog utils.LogSum utils.LogProd utils.LogSumPair lemma:ssum_zero lemma:rsum_zero
property C04 utils.LogSumExp utils.LogSumExpPair utils.AntiLog
