// Pigeonhole principle, by induction on the number of holes.
theory pigeon
rec find(f [int]int, n int, x int) int = ite(n <= 0, 0 - 1, ite(f[n-1] == x, n - 1, find(f, n-1, x)))
lemma find_spec(f [int]int, n int, x int) induct n
  requires n >= 0
  ensures (find(f, n, x) == 0 - 1 || (0 <= find(f, n, x) && find(f, n, x) < n && f[find(f, n, x)] == x)) && (find(f, n, x) == 0 - 1 ==> (forall i int :: {f[i]} 0 <= i && i < n ==> f[i] != x))
  noauto
lemma pigeons(f [int]int, n int, m int) induct m
  requires n >= 0 && m >= 0
  requires forall i int :: {f[i]} 0 <= i && i < n ==> 0 <= f[i] && f[i] < m
  requires forall i int, j int :: {f[i], f[j]} 0 <= i && i < j && j < n ==> f[i] != f[j]
  ensures n <= m
  noauto
  apply find_spec(f, n, m - 1)
  apply m > 0 && find(f, n, m - 1) >= 0 ==> pigeons(store(f, find(f, n, m - 1), f[n-1]), n - 1, m - 1)
  apply m > 0 && find(f, n, m - 1) < 0 ==> pigeons(f, n, m - 1)
// composition and the zero array
fun comp(a [int]int, q [int]int) [int]int
  axiom forall a [int]int, q [int]int, i int :: {comp(a, q)[i]} comp(a, q)[i] == q[a[i]]
fun zeros() [int]int
  axiom forall i int :: {zeros()[i]} zeros()[i] == 0
// a[0..n-1] has no duplicates (r is its inverse) and every entry stands in b[0..m-1] at the place q tells
lemma sub_len(a [int]int, r [int]int, n int, b [int]int, q [int]int, m int)
  requires n >= 0 && m >= 0 && (forall i int :: {a[i]} 0 <= i && i < n ==> r[a[i]] == i && 0 <= q[a[i]] && q[a[i]] < m && b[q[a[i]]] == a[i])
  ensures n <= m
  noauto
  apply pigeons(comp(a, q), n, m)
endtheory
