package rand
func Perm(n) (r)
  trusted math/rand: a permutation of 0..n-1
  allocs e.int
  ghostvar inv [int]int
  requires n >= 0
  ensures fresh(r) && len(r) == n
  ensures forall i int :: {r[i]} 0 <= i && i < n ==> 0 <= r[i] && r[i] < n && inv[r[i]] == i
  ensures forall x int :: {inv[x]} 0 <= x && x < n ==> 0 <= inv[x] && inv[x] < n && r[inv[x]] == x
func Intn(n) (r)
  trusted math/rand: a number in [0, n)
  requires n > 0
  ensures 0 <= r && r < n

package data
// the same entries
def eqm(a map[int]int, b map[int]int) bool = forall k int :: {in(k, a)} {in(k, b)} {a[k]} {b[k]} in(k, a) == in(k, b) && (in(k, a) ==> a[k] == b[k])
// a copy: new storage, the same entries
def cpy(a map[int]int, b map[int]int) bool = a != nil && fresh(a) && eqm(a, b)

func copyMap(d, s)
  requires d != nil && d != s
  modifies map(d)
  ensures forall k int :: {in(k, d)} {d[k]} in(k, d) == (old(in(k, d)) || in(k, s)) && (in(k, d) ==> d[k] == ite(in(k, s), s[k], old(d[k])))
  loop 1
    invariant forall k int :: {$done[k]} $done[k] ==> in(k, s)
    invariant forall k int :: {in(k, d)} {d[k]} in(k, d) == (pre(in(k, d)) || $done[k]) && (in(k, d) ==> d[k] == ite($done[k], s[k], pre(d[k])))
  endloop
func copySlice(s) (d)
  ensures fresh(d) && len(d) == len(s) && (forall i int :: {d[i]} 0 <= i && i < len(s) ==> d[i] == s[i])
  loop 1
    invariant fresh(d) && len(d) == len(s) && (forall i int :: {d[i]} 0 <= i && i < $k ==> d[i] == s[i])
  endloop

func Copy(D, L) (E, M)
  requires len(D) == len(L) || L == nil
  ensures fresh(E) && len(E) == len(D) && (forall i int :: {E[i]} 0 <= i && i < len(D) ==> cpy(E[i], D[i]))
  ensures L == nil ==> M == nil
  ensures L != nil ==> fresh(M) && len(M) == len(L) && (forall i int :: {M[i]} 0 <= i && i < len(L) ==> M[i] == L[i])
  loop 1
    invariant fresh(nD) && len(nD) == n && (L == nil ==> nL == nil) && (L != nil ==> fresh(nL) && len(nL) == n)
    invariant forall j int :: {nD[j]} 0 <= j && j < i ==> cpy(nD[j], D[j])
    invariant L != nil ==> (forall j int :: {nL[j]} 0 <= j && j < i ==> nL[j] == L[j])
  endloop

func Join(D, E, L, M) (F, P)
  requires L != nil && M != nil ==> len(L) == len(D) && len(M) == len(E)
  ensures fresh(F) && len(F) == len(D) + len(E)
  ensures forall i int :: {F[i]} 0 <= i && i < len(D) ==> cpy(F[i], D[i])
  ensures forall i int :: {F[i]} len(D) <= i && i < len(F) ==> cpy(F[i], E[i - len(D)])
  ensures L == nil || M == nil ==> P == nil
  ensures L != nil && M != nil ==> fresh(P) && len(P) == len(F) && (forall i int :: {P[i]} 0 <= i && i < len(P) ==> P[i] == ite(i < len(D), L[i], M[i - len(D)]))
  loop 1
    invariant fresh(F) && len(F) == o && (!c ==> P == nil) && (c ==> fresh(P) && len(P) == o)
    invariant forall j int :: {F[j]} 0 <= j && j < i ==> cpy(F[j], D[j])
    invariant c ==> (forall j int :: {P[j]} 0 <= j && j < i ==> P[j] == L[j])
  endloop
  loop 2
    invariant fresh(F) && len(F) == o && (!c ==> P == nil) && (c ==> fresh(P) && len(P) == o)
    invariant forall j int :: {F[j]} 0 <= j && j < n ==> cpy(F[j], D[j])
    invariant forall j int :: {F[j]} n <= j && j < i ==> cpy(F[j], E[j - n])
    invariant c ==> (forall j int :: {P[j]} 0 <= j && j < i ==> P[j] == ite(j < n, L[j], M[j - n]))
  endloop

// the instances with label l, the others, each in the order of D; a: index in D, w: place among its kind
func SubtractLabel(D, L, l) (S, P, T, Q)
  requires len(D) == len(L)
  ghostvar a [int]int
  ghostvar b [int]int
  ghostvar w [int]int
  ensures len(S) == len(P) && len(T) == len(Q) && (arr(S) == 0 || fresh(S)) && (arr(T) == 0 || fresh(T)) && (arr(P) == 0 || fresh(P)) && (arr(Q) == 0 || fresh(Q))
  ensures forall j int :: {S[j]} {a[j]} 0 <= j && j < len(S) ==> 0 <= a[j] && a[j] < len(D) && L[a[j]] != l && w[a[j]] == j && cpy(S[j], D[a[j]]) && P[j] == L[a[j]]
  ensures forall j int :: {T[j]} {b[j]} 0 <= j && j < len(T) ==> 0 <= b[j] && b[j] < len(D) && L[b[j]] == l && w[b[j]] == j && cpy(T[j], D[b[j]]) && Q[j] == l
  ensures forall i int :: {w[i]} {L[i]} 0 <= i && i < len(D) ==> ite(L[i] == l, 0 <= w[i] && w[i] < len(T) && b[w[i]] == i, 0 <= w[i] && w[i] < len(S) && a[w[i]] == i)
  ensures forall j int, k int :: {a[j], a[k]} 0 <= j && j < k && k < len(S) ==> a[j] < a[k]
  ensures forall j int, k int :: {b[j], b[k]} 0 <= j && j < k && k < len(T) ==> b[j] < b[k]
  loop 1
    step a = ite(L[$k-1] == l, a, store(a, len(S) - 1, $k-1))
    step b = ite(L[$k-1] == l, store(b, len(T) - 1, $k-1), b)
    step w = store(w, $k-1, ite(L[$k-1] == l, len(T) - 1, len(S) - 1))
    invariant len(S) == len(P) && len(T) == len(Q) && (arr(S) == 0 || fresh(S)) && (arr(T) == 0 || fresh(T)) && (arr(P) == 0 || fresh(P)) && (arr(Q) == 0 || fresh(Q)) && i == $k
    invariant (arr(S) == 0 || arr(S) != arr(T)) && (arr(P) == 0 || arr(P) != arr(Q))
    invariant forall j int :: {S[j]} {a[j]} 0 <= j && j < len(S) ==> 0 <= a[j] && a[j] < $k && L[a[j]] != l && w[a[j]] == j && P[j] == L[a[j]]
    invariant forall j int :: {S[j]} 0 <= j && j < len(S) ==> cpy(S[j], D[a[j]])
    invariant forall j int :: {T[j]} {b[j]} 0 <= j && j < len(T) ==> 0 <= b[j] && b[j] < $k && w[b[j]] == j
    invariant forall j int :: {b[j]} 0 <= j && j < len(T) ==> L[b[j]] == l
    invariant forall j int :: {Q[j]} 0 <= j && j < len(T) ==> Q[j] == l
    invariant forall j int :: {T[j]} 0 <= j && j < len(T) ==> cpy(T[j], D[b[j]])
    invariant forall i int :: {w[i]} {L[i]} 0 <= i && i < $k ==> ite(L[i] == l, 0 <= w[i] && w[i] < len(T) && b[w[i]] == i, 0 <= w[i] && w[i] < len(S) && a[w[i]] == i)
    invariant forall j int, k int :: {a[j], a[k]} 0 <= j && j < k && k < len(S) ==> a[j] < a[k]
    invariant forall j int, k int :: {b[j], b[k]} 0 <= j && j < k && k < len(T) ==> b[j] < b[k]
  endloop

def without(a map[int]int, b map[int]int, v int) bool = forall k int :: {in(k, a)} {in(k, b)} {a[k]} in(k, a) == (in(k, b) && k != v) && (in(k, a) ==> a[k] == b[k])
func SubtractVariable(D, v) (E)
  requires v != nil
  ensures fresh(E) && len(E) == len(D) && (forall i int :: {E[i]} 0 <= i && i < len(D) ==> E[i] != nil && fresh(E[i]) && without(E[i], D[i], v.Varid))
  loop 1
    invariant fresh(E) && len(E) == len(D) && (forall j int :: {E[j]} 0 <= j && j < $k ==> E[j] != nil && fresh(E[j]) && without(E[j], D[j], u))
  endloop
  loop 2
    invariant fresh(E) && len(E) == len(D) && E[i] != nil && fresh(E[i]) && (forall j int :: {E[j]} 0 <= j && j < i ==> E[j] != E[i] && E[j] != nil && fresh(E[j]) && without(E[j], D[j], u))
    invariant forall k int :: {$done[k]} $done[k] ==> in(k, I)
    invariant forall k int :: {in(k, E[i])} {E[i][k]} {$done[k]} in(k, E[i]) == ($done[k] && k != u) && (in(k, E[i]) ==> E[i][k] == I[k])
  endloop
func MergeLabel(D, L, V) (T)
  requires V != nil && len(L) >= len(D)
  ensures fresh(T) && len(T) == len(D) && (forall i int :: {T[i]} 0 <= i && i < len(D) ==> T[i] != nil && fresh(T[i]))
  ensures forall i int, k int :: {in(k, T[i])} {T[i][k]} 0 <= i && i < len(D) ==> in(k, T[i]) == (k == V.Varid || in(k, D[i])) && (in(k, T[i]) ==> T[i][k] == ite(k == V.Varid, L[i], D[i][k]))
  loop 1
    invariant fresh(T) && len(T) == len(D) && (forall i int :: {T[i]} 0 <= i && i < $k ==> T[i] != nil && fresh(T[i]))
    invariant forall i int, k int :: {in(k, T[i])} {T[i][k]} 0 <= i && i < $k ==> in(k, T[i]) == (k == v || in(k, D[i])) && (in(k, T[i]) ==> T[i][k] == ite(k == v, L[i], D[i][k]))
  endloop

theory cards
// a finite set with a subset of the same size is that subset (mathematical fact, assumed)
fun sdiff(a [int]bool, b [int]bool) int
assume @card_sub forall a [int]bool, b [int]bool :: {card(a), card(b)} finite(b) ==> (a[sdiff(a, b)] && !b[sdiff(a, b)]) || (card(a) <= card(b) && (card(a) == card(b) ==> a == b))
endtheory
// the label is the value of the variable with the largest number
def lastv(I map[int]int, k int) bool = k >= 0 && (forall p int :: {in(p, I)} in(p, I) ==> p <= k) && (k == 0 || in(k, I))
func ExtractLabels(S, D) (Sr, M, lv, L)
  ghostvar kx [int]int
  ghostvar q int
  ensures Sr == S && lv == ite(in(len(S) - 1, S), S[len(S) - 1], nil)
  ensures fresh(M) && len(M) == len(D) && fresh(L) && len(L) == len(D)
  ensures forall i int :: {M[i]} {L[i]} 0 <= i && i < len(D) ==> M[i] != nil && fresh(M[i]) && L[i] == ite(in(kx[i], D[i]), D[i][kx[i]], 0)
  ensures forall i int :: {kx[i]} 0 <= i && i < len(D) ==> lastv(D[i], kx[i])
  ensures forall i int :: {M[i]} 0 <= i && i < len(D) ==> without(M[i], D[i], kx[i])
  loop 1
    step kx = store(kx, $k-1, q)
    invariant fresh(M) && len(M) == m && fresh(L) && len(L) == m
    invariant forall j int :: {M[j]} 0 <= j && j < $k ==> M[j] != nil && fresh(M[j])
    invariant forall j int :: {L[j]} {kx[j]} 0 <= j && j < $k ==> L[j] == ite(in(kx[j], D[j]), D[j][kx[j]], 0)
    invariant forall j int :: {kx[j]} 0 <= j && j < $k ==> lastv(D[j], kx[j])
    invariant forall j int :: {M[j]} 0 <= j && j < $k ==> without(M[j], D[j], kx[j])
  endloop
  loop 2
    init q = k
    step q = k
    invariant q == k && fresh(M) && len(M) == m && M[i] != nil && fresh(M[i]) && k >= 0 && (k == 0 || $done[k])
    invariant forall j int :: {M[j]} 0 <= j && j < i ==> M[j] != M[i] && M[j] != nil && fresh(M[j])
    invariant forall j int :: {L[j]} {kx[j]} 0 <= j && j < i ==> L[j] == ite(in(kx[j], D[j]), D[j][kx[j]], 0)
    invariant forall j int :: {kx[j]} 0 <= j && j < i ==> lastv(D[j], kx[j])
    invariant forall j int :: {M[j]} 0 <= j && j < i ==> without(M[j], D[j], kx[j])
    invariant forall p int :: {$done[p]} $done[p] ==> in(p, I) && p <= k
    invariant forall p int :: {in(p, M[i])} {M[i][p]} {$done[p]} in(p, M[i]) == $done[p] && (in(p, M[i]) ==> M[i][p] == I[p])
  endloop

// sx[l][j]: the index in D of instance j of class l; w: the place of an instance in its class
func Split(D, c, L) (S)
  requires len(L) <= len(D) && c >= 0 && (forall i int :: {L[i]} 0 <= i && i < len(L) ==> 0 <= L[i] && L[i] < c)
  ghostvar sx [int][int]int
  ghostvar w [int]int
  ensures fresh(S) && len(S) == c
  ensures forall l int, j int :: {S[l][j]} {sx[l][j]} 0 <= l && l < c && 0 <= j && j < len(S[l]) ==> 0 <= sx[l][j] && sx[l][j] < len(L) && L[sx[l][j]] == l && w[sx[l][j]] == j
  ensures forall l int, j int :: {S[l][j]} 0 <= l && l < c && 0 <= j && j < len(S[l]) ==> cpy(S[l][j], D[sx[l][j]])
  ensures forall i int :: {w[i]} {L[i]} 0 <= i && i < len(L) ==> 0 <= w[i] && w[i] < len(S[L[i]]) && sx[L[i]][w[i]] == i
  ensures forall l int, j int, k int :: {sx[l][j], sx[l][k]} 0 <= l && l < c && 0 <= j && j < k && k < len(S[l]) ==> sx[l][j] < sx[l][k]
  loop 1
    step sx = store(sx, L[$k-1], store(sx[L[$k-1]], len(S[L[$k-1]]) - 1, $k-1))
    step w = store(w, $k-1, len(S[L[$k-1]]) - 1)
    invariant fresh(S) && len(S) == c && (forall l int :: {S[l]} 0 <= l && l < c ==> len(S[l]) >= 0 && (arr(S[l]) == 0 && len(S[l]) == 0 || fresh(S[l])))
    invariant forall l int, m int :: {S[l], S[m]} 0 <= l && l < m && m < c ==> arr(S[l]) == 0 || arr(S[l]) != arr(S[m])
    invariant forall l int, j int :: {S[l][j]} {sx[l][j]} 0 <= l && l < c && 0 <= j && j < len(S[l]) ==> 0 <= sx[l][j] && sx[l][j] < $k && L[sx[l][j]] == l && w[sx[l][j]] == j
    invariant forall l int, j int :: {S[l][j]} 0 <= l && l < c && 0 <= j && j < len(S[l]) ==> cpy(S[l][j], D[sx[l][j]])
    invariant forall i int :: {w[i]} {L[i]} 0 <= i && i < $k ==> 0 <= w[i] && w[i] < len(S[L[i]]) && sx[L[i]][w[i]] == i
    invariant forall l int, j int, k int :: {sx[l][j], sx[l][k]} 0 <= l && l < c && 0 <= j && j < k && k < len(S[l]) ==> sx[l][j] < sx[l][k]
  endloop

theory perms
fun iota() [int]int
  axiom forall i int :: {iota()[i]} iota()[i] == i
endtheory
// p: where the instance at i was; q: where the one at i went
func Shuffle(D, L)
  uses perms
  requires len(D) == len(L) || L == nil
  modifies elems(D), elems(L)
  ghostvar p [int]int
  ghostvar q [int]int
  ghostvar ii int
  ghostvar jj int
  aftercall rand.Intn ii = $arg0 - 1
  aftercall rand.Intn jj = $res0
  ensures forall i int :: {D[i]} {p[i]} 0 <= i && i < len(D) ==> 0 <= p[i] && p[i] < len(D) && q[p[i]] == i && D[i] == old(D[p[i]]) && (L != nil ==> L[i] == old(L[p[i]]))
  ensures forall i int :: {q[i]} 0 <= i && i < len(D) ==> 0 <= q[i] && q[i] < len(D) && p[q[i]] == i
  loop 1
    init p = iota()
    init q = iota()
    step p = store(store(p, ii, p[jj]), jj, p[ii])
    step q = store(store(q, p[ii], ii), p[jj], jj)
    invariant i < len(D)
    invariant forall i int :: {D[i]} {p[i]} 0 <= i && i < len(D) ==> 0 <= p[i] && p[i] < len(D) && q[p[i]] == i && D[i] == old(D[p[i]]) && (L != nil ==> L[i] == old(L[p[i]]))
    invariant forall i int :: {q[i]} 0 <= i && i < len(D) ==> 0 <= q[i] && q[i] < len(D) && p[q[i]] == i
  endloop

func Identical(D, E, L, M) (r)
  uses cards
  requires L != nil && M != nil ==> len(L) == len(D) && len(M) == len(E)
  ensures r ==> len(D) == len(E) && (forall i int :: {D[i]} {E[i]} 0 <= i && i < len(D) ==> eqm(D[i], E[i])) && (L != nil && M != nil ==> (forall i int :: {L[i]} 0 <= i && i < len(D) ==> L[i] == M[i]))
  ensures len(D) == len(E) && (forall i int :: {D[i]} {E[i]} 0 <= i && i < len(D) ==> eqm(D[i], E[i])) && (L != nil && M != nil ==> (forall i int :: {L[i]} 0 <= i && i < len(D) ==> L[i] == M[i])) ==> r
  loop 1
    invariant len(D) == len(E) && (forall i int :: {D[i]} {E[i]} 0 <= i && i < $k ==> eqm(D[i], E[i]))
  endloop
  loop 2
    invariant forall k int :: {$done[k]} $done[k] ==> in(k, J) && J[k] == I[k]
  endloop
  loop 3
    invariant forall i int :: {L[i]} 0 <= i && i < $k ==> L[i] == M[i]
  endloop

// Divide: part i holds the instances i*k .. i*k+k-1 and, for i < m mod n, the i-th from the end
theory divs
def dix(i int, j int, k int, m int) int = ite(j < k, i*k + j, m - i - 1)
lemma mul_mono(a int, b int, k int)
  requires a <= b && k >= 0
  ensures a*k <= b*k
  noauto
// different places hold different instances, and every instance has its place
lemma divide_inj(n int, k int, l int, m int, i int, j int, p int, q int)
  requires n >= 1 && k >= 1 && 0 <= l && l < n && m == n*k + l
  requires 0 <= i && i < n && 0 <= j && j < k + ite(i < l, 1, 0) && 0 <= p && p < n && 0 <= q && q < k + ite(p < l, 1, 0)
  requires dix(i, j, k, m) == dix(p, q, k, m)
  ensures i == p && j == q
  noauto
  apply i < n ==> mul_mono(i + 1, n, k)
  apply p < n ==> mul_mono(p + 1, n, k)
  apply i < p ==> mul_mono(i + 1, p, k)
  apply p < i ==> mul_mono(p + 1, i, k)
lemma divide_onto(n int, k int, l int, m int, x int, d int, r int)
  requires n >= 1 && k >= 1 && 0 <= l && l < n && m == n*k + l && 0 <= x && x < m && x == d*k + r && 0 <= r && r < k
  ensures x < n*k ==> 0 <= d && d < n && dix(d, r, k, m) == x
  ensures x >= n*k ==> 0 <= m - 1 - x && m - 1 - x < l && dix(m - 1 - x, k, k, m) == x
  noauto
  apply d >= n ==> mul_mono(n, d, k)
  apply d < 0 ==> mul_mono(d, 0 - 1, k)
endtheory
def parts(Gd [][]map[int]int, Gl [][]int, n int) bool = len(Gd) == n && len(Gl) == n && fresh(Gd) && fresh(Gl) && (forall i int :: {Gd[i]} {Gl[i]} 0 <= i && i < n ==> len(Gd[i]) == len(Gl[i]) && (arr(Gd[i]) == 0 && len(Gd[i]) == 0 || fresh(Gd[i])) && (arr(Gl[i]) == 0 && len(Gl[i]) == 0 || fresh(Gl[i]))) && (forall i int, j int :: {Gd[i], Gd[j]} 0 <= i && i < j && j < n ==> arr(Gd[i]) == 0 || arr(Gd[i]) != arr(Gd[j])) && (forall i int, j int :: {Gl[i], Gl[j]} 0 <= i && i < j && j < n ==> arr(Gl[i]) == 0 || arr(Gl[i]) != arr(Gl[j]))
func Divide(D, L, n) (Gd, Gl)
  uses divs
  requires n >= 1 && len(L) >= len(D)
  ghostvar K int
  ghostvar R int
  ensures len(D) == n*K + R && 0 <= R && R < n && K >= 0
  ensures K == 0 ==> len(Gd) == 1 && len(Gl) == 1 && len(Gd[0]) == len(D) && len(Gl[0]) == len(D) && (forall i int :: {Gd[0][i]} {Gl[0][i]} 0 <= i && i < len(D) ==> cpy(Gd[0][i], D[i]) && Gl[0][i] == L[i])
  ensures K > 0 ==> len(Gd) == n && len(Gl) == n && (forall i int :: {Gd[i]} {Gl[i]} 0 <= i && i < n ==> len(Gd[i]) == K + ite(i < R, 1, 0) && len(Gl[i]) == len(Gd[i]))
  ensures K > 0 ==> (forall i int, j int :: {Gd[i][j]} 0 <= i && i < n && 0 <= j && j < len(Gd[i]) ==> cpy(Gd[i][j], D[dix(i, j, K, len(D))]))
  ensures K > 0 ==> (forall i int, j int :: {Gl[i][j]} 0 <= i && i < n && 0 <= j && j < len(Gd[i]) ==> Gl[i][j] == L[dix(i, j, K, len(D))])
  loop 1
    init K = k
    init R = l
    invariant k == 0 && K == 0 && R == l && len(Gd) == 1 && len(Gl) == 1 && len(Gd[0]) == m && len(Gl[0]) == m && fresh(Gd) && fresh(Gl) && fresh(Gd[0]) && fresh(Gl[0])
    invariant forall i int :: {Gd[0][i]} 0 <= i && i < $k ==> cpy(Gd[0][i], D[i])
    invariant forall i int :: {Gl[0][i]} 0 <= i && i < $k ==> Gl[0][i] == L[i]
  endloop
  loop 2
    init K = k
    init R = l
    apply mul_mono(i, n, k)
    invariant K == k && R == l && K > 0 && i <= n && parts(Gd, Gl, n)
    invariant forall a int :: {Gd[a]} 0 <= a && a < n ==> len(Gd[a]) == ite(a < i, k, 0)
    invariant forall a int, j int :: {Gd[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> cpy(Gd[a][j], D[a*k + j])
    invariant forall a int, j int :: {Gl[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> Gl[a][j] == L[a*k + j]
  endloop
  loop 3
    apply mul_mono(i + 1, n, k)
    invariant j <= k && i < n && parts(Gd, Gl, n)
    invariant forall a int :: {Gd[a]} 0 <= a && a < n ==> len(Gd[a]) == ite(a < i, k, ite(a == i, j, 0))
    invariant forall a int, j int :: {Gd[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> cpy(Gd[a][j], D[a*k + j])
    invariant forall a int, j int :: {Gl[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> Gl[a][j] == L[a*k + j]
  endloop
  loop 4
    invariant i <= l && parts(Gd, Gl, n)
    invariant forall a int :: {Gd[a]} 0 <= a && a < n ==> len(Gd[a]) == k + ite(a < i, 1, 0)
    invariant forall a int, j int :: {Gd[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> cpy(Gd[a][j], D[dix(a, j, k, m)])
    invariant forall a int, j int :: {Gl[a][j]} 0 <= a && a < n && 0 <= j && j < len(Gd[a]) ==> Gl[a][j] == L[dix(a, j, k, m)]
  endloop

theory rounding
rec isum(a [int]int, n int) int = ite(n <= 0, 0, isum(a, n-1) + a[n-1])
rec psum(a [int]F, n int) Real = ite(n <= 0, 0.0, psum(a, n-1) + rv(a[n-1]))
lemma round_whole(x Real, s Real, t Real)
  requires x == real(trunc(x)) && x >= 0.0 && s == t + x
  ensures trunc(rv(ffloor(F(s - t + 0.5)))) == trunc(x)
  noauto
lemma isum_upd(a [int]int, i int, v int, n int) induct n
  requires i >= n
  ensures isum(store(a, i, v), n) == isum(a, n)
  trigger isum(store(a, i, v), n)
lemma isum_mono(a [int]int, i int, n int) induct n
  requires 0 <= i && i <= n && (forall j int :: {a[j]} 0 <= j && j < n ==> a[j] >= 0)
  ensures isum(a, i) <= isum(a, n)
  trigger isum(a, i), isum(a, n)
lemma psum_upd(a [int]F, i int, v F, n int) induct n
  requires i >= n
  ensures psum(store(a, i, v), n) == psum(a, n)
  trigger psum(store(a, i, v), n)
lemma dist(n Real, a Real, b Real)
  ensures n * (a + b) == n * a + n * b
  noauto
lemma mul_le(n Real, a Real, b Real)
  requires n >= 0.0 && a <= b
  ensures n * a <= n * b
  noauto
endtheory
def props(p []float64) bool = forall i int :: {p[i]} 0 <= i && i < len(p) ==> fin(p[i]) && rv(p[i]) >= 0.0
def isint(x F) bool = x == F(real(trunc(rv(x))))
func cascadeRounding(p) (q)
  uses rounding
  requires props(p)
  ensures fresh(q) && len(q) == len(p) && (forall i int :: {q[i]} 0 <= i && i < len(q) ==> q[i] >= 0)
  ensures psum(elems(p), len(p)) - 0.5 < real(isum(elems(q), len(q))) && real(isum(elems(q), len(q))) <= psum(elems(p), len(p)) + 0.5
  // whole numbers are kept
  ensures (forall i int :: {p[i]} 0 <= i && i < len(p) ==> isint(p[i])) ==> (forall i int :: {q[i]} 0 <= i && i < len(q) ==> F(real(q[i])) == p[i])
  loop 1
    invariant fresh(q) && len(q) == len(p) && s == F(psum(elems(p), $k)) && t == isum(elems(q), $k)
    invariant forall i int :: {q[i]} 0 <= i && i < $k ==> q[i] >= 0
    invariant psum(elems(p), $k) - 0.5 < real(t) && real(t) <= psum(elems(p), $k) + 0.5
    apply isint(p[$k-1]) && real(t) - real(q[$k-1]) == psum(elems(p), $k-1) ==> round_whole(rv(p[$k-1]), psum(elems(p), $k), real(t) - real(q[$k-1]))
    assert isint(p[$k-1]) && real(t) - real(q[$k-1]) == psum(elems(p), $k-1) ==> q[$k-1] == trunc(rv(p[$k-1]))
    invariant (forall i int :: {p[i]} 0 <= i && i < len(p) ==> isint(p[i])) ==> real(t) == psum(elems(p), $k) && (forall i int :: {q[i]} 0 <= i && i < $k ==> F(real(q[i])) == p[i])
  endloop

// R: a permutation of the instances (inv: its inverse); part i holds those at off[i] .. off[i+1]-1 of it
func Partition(D, p) (M)
  uses rounding
  requires props(p) && psum(elems(p), len(p)) <= 1.0
  ghostvar R [int]int
  ghostvar inv [int]int
  ghostvar off [int]int
  aftercall rand.Perm R = elems($res0)
  aftercall rand.Perm inv = $gv_inv
  ensures fresh(M) && len(M) == len(p) && off[0] == 0 && (forall i int :: {M[i]} {off[i]} 0 <= i && i < len(M) ==> off[i+1] == off[i] + len(M[i]) && off[i] >= 0 && off[i+1] <= len(D))
  ensures off[len(p)] <= len(D) && (psum(elems(p), len(p)) == 1.0 ==> off[len(p)] == len(D))
  ensures forall i int, j int :: {M[i][j]} 0 <= i && i < len(M) && 0 <= j && j < len(M[i]) ==> cpy(M[i][j], D[R[off[i] + j]])
  ensures forall x int :: {R[x]} 0 <= x && x < len(D) ==> 0 <= R[x] && R[x] < len(D) && inv[R[x]] == x
  ensures forall x int :: {inv[x]} 0 <= x && x < len(D) ==> 0 <= inv[x] && inv[x] < len(D) && R[inv[x]] == x
  loop 1
    apply dist(real(n), psum(elems(p), $k-1), rv(p[$k-1]))
    apply mul_le(real(n), 0.0, rv(p[$k-1]))
    invariant len(q) == m && fresh(q) && psum(elems(q), $k) == real(n) * psum(elems(p), $k)
    invariant forall j int :: {q[j]} 0 <= j && j < $k ==> fin(q[j]) && rv(q[j]) >= 0.0
  endloop
  callapply data.cascadeRounding mul_le(real(n), psum(elems(p), len(p)), 1.0)
  loop 2
    init off = store(off, 0, 0)
    step off = store(off, $k, k)
    invariant fresh(M) && len(M) == m && k == isum(elems(S), $k) && off[0] == 0 && off[$k] == k && $k >= 0 && isum(elems(S), m) <= n
    invariant forall i int :: {M[i]} {off[i]} 0 <= i && i < $k ==> off[i+1] == off[i] + len(M[i]) && off[i] >= 0 && off[i+1] <= n && fresh(M[i])
    invariant forall i int, j int :: {M[i][j]} 0 <= i && i < $k && 0 <= j && j < len(M[i]) ==> cpy(M[i][j], D[R[off[i] + j]])
  endloop
  loop 3
    invariant len(M) == m && fresh(M) && fresh(M[i]) && len(M[i]) == s && 0 <= j && j <= s
    invariant k == isum(elems(S), i) + j && isum(elems(S), i+1) <= isum(elems(S), m)
    invariant forall a int :: {M[a]} 0 <= a && a < m && a != i ==> M[a] == pre(M[a])
    invariant forall a int :: {M[a]} {off[a]} 0 <= a && a < i ==> off[a+1] == off[a] + len(M[a]) && off[a] >= 0 && off[a+1] <= n && fresh(M[a]) && arr(M[a]) != arr(M[i])
    invariant forall a int, b int :: {M[a][b]} 0 <= a && a < i && 0 <= b && b < len(M[a]) ==> cpy(M[a][b], D[R[off[a] + b]])
    invariant forall b int :: {M[i][b]} 0 <= b && b < j ==> cpy(M[i][b], D[R[isum(elems(S), i) + b]])
  endloop


property C15 data.copyMap data.copySlice data.Copy data.Join data.SubtractLabel data.SubtractVariable data.MergeLabel
property C15 data.ExtractLabels data.Split data.Shuffle data.Identical data.Divide data.cascadeRounding data.Partition lemma:divide_inj lemma:divide_onto
