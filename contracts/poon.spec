package poon
// C19: codes of rectangles. The image has width w and height h; a region (x1,y1,x2,y2) lies inside
// when its coordinates do not exceed them.
def inside(x1 int, y1 int, x2 int, y2 int) bool = 0 <= x1 && x1 <= poon.w && 0 <= y1 && y1 <= poon.h && 0 <= x2 && x2 <= poon.w && 0 <= y2 && y2 <= poon.h
theory rect
fun code(a int, b int, x1 int, y1 int, x2 int, y2 int) int
  axiom forall a int, b int, x1 int, y1 int, x2 int, y2 int :: {code(a, b, x1, y1, x2, y2)} code(a, b, x1, y1, x2, y2) == ((y1 * a + x1) * a + x2) * b + y2
lemma digit_lt(b int, p int, r int, q int, s int)
  noauto
  requires b > 0 && 0 <= r && r < b && 0 <= s && s < b && p < q
  ensures p * b + r < q * b + s
lemma digit(b int, p int, r int, q int, s int)
  noauto
  requires b > 0 && 0 <= r && r < b && 0 <= s && s < b && p * b + r == q * b + s
  apply p < q ==> digit_lt(b, p, r, q, s)
  apply q < p ==> digit_lt(b, q, s, p, r)
  ensures p == q && r == s
// distinct regions have distinct codes
lemma code_inj(a int, b int, x1 int, y1 int, x2 int, y2 int, p1 int, q1 int, p2 int, q2 int)
  trigger code(a, b, x1, y1, x2, y2), code(a, b, p1, q1, p2, q2)
  requires a > 0 && b > 0 && 0 <= x1 && x1 < a && 0 <= x2 && x2 < a && 0 <= y2 && y2 < b && 0 <= p1 && p1 < a && 0 <= p2 && p2 < a && 0 <= q2 && q2 < b
  requires code(a, b, x1, y1, x2, y2) == code(a, b, p1, q1, p2, q2)
  apply digit(b, (y1 * a + x1) * a + x2, y2, (q1 * a + p1) * a + p2, q2)
  apply digit(a, y1 * a + x1, x2, q1 * a + p1, p2)
  apply digit(a, y1, x1, q1, p1)
  ensures x1 == p1 && y1 == q1 && x2 == p2 && y2 == q2
endtheory

func Encode(x1, y1, x2, y2) (k)
  uses rect
  requires poon.w >= 0 && poon.h >= 0 && inside(x1, y1, x2, y2)
  ensures k == code(poon.w + 1, poon.h + 1, x1, y1, x2, y2)

// whatever region k is the code of, that region is returned
func Decode(k) (x1, y1, x2, y2)
  uses rect
  requires poon.w >= 0 && poon.h >= 0
  assert k == code(poon.w + 1, poon.h + 1, x1, y1, x2, y2)
  ensures forall p1 int, q1 int, p2 int, q2 int :: {code(poon.w + 1, poon.h + 1, p1, q1, p2, q2)} inside(p1, q1, p2, q2) && k == code(poon.w + 1, poon.h + 1, p1, q1, p2, q2) ==> x1 == p1 && y1 == q1 && x2 == p2 && y2 == q2

property C19 poon.Encode poon.Decode lemma:digit_lt lemma:digit lemma:code_inj
