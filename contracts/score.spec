package score
// pown[a]: the score that owns the array a of predictions
type S
  ghost pown ref
theory scores
rec nhit(a [int]Pair, k int) int = ite(k <= 0, 0, nhit(a, k-1) + ite(a[k-1].Predicted == a[k-1].Expected, 1, 0))
lemma nhit_ext(a [int]Pair, b [int]Pair, k int) induct k
  requires forall i int :: {a[i]} {b[i]} 0 <= i && i < k ==> a[i] == b[i]
  ensures nhit(a, k) == nhit(b, k)
  noauto
rec ncell(a [int]Pair, k int, e int, p int) int = ite(k <= 0, 0, ncell(a, k-1, e, p) + ite(a[k-1].Expected == e && a[k-1].Predicted == p, 1, 0))
lemma nhit_app(a [int]Pair, m int, b [int]Pair, k int) induct k
  requires m >= 0 && k >= 0 && (forall i int :: {b[i]} {a[m + i]} 0 <= i && i < k ==> a[m + i] == b[i])
  ensures nhit(a, m + k) == nhit(a, m) + nhit(b, k)
  noauto
endtheory
def scoreOK(s *S) bool = s != nil && s.hits + s.misses == s.total && s.total == len(s.predictions) && s.hits == nhit(elems(s.predictions), len(s.predictions)) && (arr(s.predictions) == 0 || pown[arr(s.predictions)] == s)

func NewScore() (r)
  uses scores
  ensures fresh(r) && scoreOK(r) && len(r.predictions) == 0 && (arr(r.predictions) == 0 || fresh(r.predictions))
func S.Hits(s) (r)
  uses scores
  requires scoreOK(s)
  ensures r == s.hits
func S.Register(s, predicted, expected)
  uses scores
  requires scoreOK(s)
  modifies s.hits, s.misses, s.total, s.predictions, elems(s.predictions)
  ghost pown[arr(s.predictions)] = s
  apply nhit_ext(elems(s.predictions), old(elems(s.predictions)), old(len(s.predictions)))
  ensures scoreOK(s)
  ensures s.total == old(s.total) + 1 && s.hits == old(s.hits) + ite(predicted == expected, 1, 0)
  ensures s.predictions[s.total - 1].Predicted == predicted && s.predictions[s.total - 1].Expected == expected
  ensures forall i int :: {s.predictions[i]} 0 <= i && i < old(s.total) ==> s.predictions[i] == old(s.predictions[i])
  // no other score changes
  ensures forall t *S :: {t.predictions} t != s && old(scoreOK(t)) ==> scoreOK(t) && t.hits == old(t.hits) && t.predictions == old(t.predictions) && elems(t.predictions) == old(elems(t.predictions))
func S.Misses(s) (r)
  uses scores
  requires scoreOK(s)
  ensures r == s.misses
func S.Total(s) (r)
  uses scores
  requires scoreOK(s)
  ensures r == s.total && r == s.hits + s.misses
func S.Clear(s)
  uses scores
  requires scoreOK(s)
  modifies s.hits, s.misses, s.total, s.predictions
  ensures scoreOK(s) && s.total == 0 && len(s.predictions) == 0
func S.Merge(s, t)
  uses scores
  requires scoreOK(s) && scoreOK(t)
  modifies s.hits, s.misses, s.total, s.predictions, elems(s.predictions)
  ghost pown[arr(s.predictions)] = ite(arr(s.predictions) == 0, pown[0], s)
  apply nhit_ext(elems(s.predictions), old(elems(s.predictions)), old(len(s.predictions)))
  apply nhit_app(elems(s.predictions), old(len(s.predictions)), old(elems(t.predictions)), old(len(t.predictions)))
  ensures scoreOK(s)
  ensures s.hits == old(s.hits) + old(t.hits) && s.misses == old(s.misses) + old(t.misses) && s.total == old(s.total) + old(t.total)
  ensures forall i int :: {s.predictions[i]} 0 <= i && i < old(s.total) ==> s.predictions[i] == old(s.predictions[i])
  ensures forall i int :: {s.predictions[old(s.total) + i]} 0 <= i && i < old(t.total) ==> s.predictions[old(s.total) + i] == old(t.predictions[i])
  ensures forall u *S :: {u.predictions} u != s && old(scoreOK(u)) ==> scoreOK(u) && u.hits == old(u.hits) && u.predictions == old(u.predictions) && elems(u.predictions) == old(elems(u.predictions))
func Add(s, t) (r)
  uses scores
  requires scoreOK(s) && scoreOK(t)
  ghost pown[arr(r.predictions)] = ite(arr(r.predictions) == 0, pown[0], r)
  apply nhit_ext(elems(r.predictions), elems(s.predictions), len(s.predictions))
  apply nhit_app(elems(r.predictions), len(s.predictions), elems(t.predictions), len(t.predictions))
  ensures fresh(r) && scoreOK(r)
  ensures r.hits == s.hits + t.hits && r.misses == s.misses + t.misses && r.total == s.total + t.total
  ensures forall i int :: {r.predictions[i]} {s.predictions[i]} 0 <= i && i < s.total ==> r.predictions[i] == s.predictions[i]
  ensures forall i int :: {t.predictions[i]} 0 <= i && i < t.total ==> r.predictions[s.total + i] == t.predictions[i]
  ensures forall u *S :: {u.predictions} !fresh(u) && old(scoreOK(u)) ==> scoreOK(u) && u.hits == old(u.hits) && u.predictions == old(u.predictions) && elems(u.predictions) == old(elems(u.predictions))
func S.ConfusionMatrix(s, c) (M)
  uses scores
  requires scoreOK(s) && c >= 0
  requires forall i int :: {s.predictions[i]} 0 <= i && i < s.total ==> 0 <= s.predictions[i].Expected && s.predictions[i].Expected < c && 0 <= s.predictions[i].Predicted && s.predictions[i].Predicted < c
  ensures fresh(M) && len(M) == c && (forall i int :: {M[i]} 0 <= i && i < c ==> fresh(M[i]) && len(M[i]) == c)
  ensures forall i int, j int :: {M[i][j]} 0 <= i && i < c && 0 <= j && j < c ==> M[i][j] == ncell(elems(s.predictions), s.total, i, j)
  loop 1
    invariant forall a int :: {M[a]} 0 <= a && a < $k ==> fresh(M[a]) && len(M[a]) == c
    invariant forall a int, b int :: {M[a], M[b]} 0 <= a && a < b && b < $k ==> arr(M[a]) != arr(M[b])
    invariant forall a int, b int :: {M[a][b]} 0 <= a && a < $k && 0 <= b && b < c ==> M[a][b] == 0
  endloop
  loop 2
    invariant forall a int, b int :: {M[a][b]} 0 <= a && a < c && 0 <= b && b < c ==> M[a][b] == ncell(elems(s.predictions), $k, a, b)
  endloop
property C16 score.NewScore score.S.Hits score.S.Misses score.S.Total score.S.Register score.S.Clear score.S.Merge score.Add score.S.ConfusionMatrix lemma:nhit_ext lemma:nhit_app
