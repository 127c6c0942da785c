// Facts about the real exponential and logarithm (mathematical facts, assumed).
theory reals
assume @exp_pos forall x Real :: {exp(x)} exp(x) > 0.0
assume @exp_zero exp(0.0) == 1.0
assume @exp_mono forall x Real, y Real :: {exp(x), exp(y)} x < y ==> exp(x) < exp(y)
assume @ln_exp forall x Real :: {exp(x)} ln(exp(x)) == x
assume @exp_ln forall y Real :: {ln(y)} y > 0.0 ==> exp(ln(y)) == y
assume @sqrt forall y Real :: {rsqrt(y)} y >= 0.0 ==> rsqrt(y) >= 0.0 && rsqrt(y) * rsqrt(y) == y
endtheory
theory logmul
uses reals
fun eadd(x Real, y Real) Real
assume @exp_add forall x Real, y Real :: {eadd(x, y)} eadd(x, y) == exp(x) * exp(y) && eadd(x, y) == exp(x + y)
lemma eadd_def(x Real, y Real)
  ensures eadd(x, y) == exp(x) * exp(y) && eadd(x, y) == exp(x + y)
  noauto
lemma ln_mul(a Real, b Real)
  requires a > 0.0 && b > 0.0
  ensures ln(a * b) == ln(a) + ln(b) && a * b > 0.0
  noauto
  apply eadd_def(ln(a), ln(b))
// logr(a) + logr(b) = logr(a*b) on non-negative reals
lemma logr_mul(a Real, b Real)
  requires a >= 0.0 && b >= 0.0
  ensures logr(a) + logr(b) == logr(a * b) && (a == 0.0 || b == 0.0 ==> a * b == 0.0)
  noauto
  apply a > 0.0 && b > 0.0 ==> ln_mul(a, b)
lemma logr_expr(x F)
  requires fin(x) || x == NInf
  ensures logr(expr(x)) == x && expr(x) >= 0.0
  noauto
lemma expr_logr(a Real)
  requires a >= 0.0
  ensures expr(logr(a)) == a && (fin(logr(a)) || logr(a) == NInf)
  noauto
endtheory

package utils
global utils.LogZero == NInf
