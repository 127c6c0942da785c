package spn
// ---- derivatives of the network polynomial (C07) ----
// kid(n), nk(n): the children of n; fac(n)[i]: the partial derivative of n with respect to its i-th child
theory deriv
uses poly
fun kid(n ref) [int]ref
fun nk(n ref) int
fun fac(n ref) [int]Real
// multiplication, unfolded only in the lemmas below
fun emul(x Real, y Real) Real
  axiom forall x Real, y Real :: {emul(x, y)} emul(x, y) == x * y
  opaque
lemma emul_one(x Real)
  ensures emul(x, 1.0) == x
  trigger emul(x, 1.0)
lemma emul_nn(x Real, y Real)
  requires x >= 0.0 && y >= 0.0
  ensures emul(x, y) >= 0.0
  trigger emul(x, y)
lemma emul_assoc(x Real, y Real, z Real)
  ensures emul(emul(x, y), z) == emul(x, emul(y, z))
  noauto
lemma emul_log(x Real, y Real)
  requires x >= 0.0 && y >= 0.0
  ensures logr(x) + logr(y) == logr(emul(x, y)) && expr(logr(emul(x, y))) == emul(x, y) && (fin(logr(emul(x, y))) || logr(emul(x, y)) == NInf)
  noauto
  apply logr_mul(x, y)
  apply expr_logr(x * y)
lemma emul_w(w F, l F)
  requires fin(w) && rv(w) >= 0.0 && (fin(l) || l == NInf)
  ensures expr(flog(w) + l) == emul(expr(l), rv(w)) && (fin(flog(w) + l) || flog(w) + l == NInf)
  noauto
  apply logr_expr(l)
  apply exp_wlog(w, expr(l))
lemma emul_step(x Real, p Real, c Real)
  requires x >= 0.0 && p >= 0.0 && c >= 0.0
  ensures logr(emul(x, p)) + logr(c) == logr(emul(x, emul(p, c)))
  noauto
  apply emul_nn(x, p)
  apply emul_log(emul(x, p), c)
  apply emul_assoc(x, p, c)
// the product of the first n values except the i-th
rec prodx(c [int]Real, i int, n int) Real = ite(n <= 0, 1.0, emul(prodx(c, i, n-1), ite(n - 1 == i, 1.0, c[n-1])))
// what the first k edges of m pass on to n when m's derivative is x
rec erow(m ref, n ref, x Real, k int) Real = ite(k <= 0, 0.0, erow(m, n, x, k-1) + ite(kid(m)[k-1] == n, emul(x, fac(m)[k-1]), 0.0))
// what the last t nodes of w (before position hi) pass on to n, when d[q] is the derivative of node w[hi-1-q]
rec esum(w [int]ref, d [int]Real, hi int, t int, n ref) Real = ite(t <= 0, 0.0, esum(w, d, hi, t-1, n) + erow(w[hi - t], n, d[t-1], nk(w[hi - t])))
lemma esum_upd(w [int]ref, d [int]Real, hi int, t int, n ref, i int, v Real) induct t
  requires i >= t
  ensures esum(w, store(d, i, v), hi, t, n) == esum(w, d, hi, t, n)
  trigger esum(w, store(d, i, v), hi, t, n)
lemma erow_zero(m ref, n ref, x Real, k int) induct k
  requires forall i int :: {kid(m)[i]} 0 <= i && i < k ==> kid(m)[i] != n
  ensures erow(m, n, x, k) == 0.0
  trigger erow(m, n, x, k)
lemma prodx_nn(c [int]Real, i int, n int) induct n
  requires forall j int :: {c[j]} 0 <= j && j < n ==> c[j] >= 0.0
  ensures prodx(c, i, n) >= 0.0
  trigger prodx(c, i, n)
fun unit(s ref) [ref]Real
  axiom forall s ref, n ref :: {unit(s)[n]} unit(s)[n] == ite(n == s, 1.0, 0.0)
endtheory
def drvOK() bool = (forall n ref, i int :: {ch(n)[i]} {kid(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> kid(n)[i] == ch(n)[i]) && (forall n ref :: {node(n)} {nk(n)} node(n) ==> nk(n) == len(ch(n))) && (forall n ref, i int :: {fac(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> (isSum(n) ==> fac(n)[i] == rv(wt(n)[i])) && (isProd(n) ==> fac(n)[i] == prodx(cp(n), i, len(ch(n)))))
// the values of all nodes are stored under ticket k
def infd(s *Storer, k int) bool = in(k, s.tables) && (forall n ref :: {node(n)} node(n) ==> sHas(s, k, n, 0) && sVal(s, k, n, 0) == logr(P(n)))
def acc(t StorerTable, n SPN) Real = ite(tHas(t, n, 0), expr(tVal(t, n, 0)), 0.0)
def ind1(b bool) Real = ite(b, 1.0, 0.0)

package learn
// W lists the network, children first; D[q] is the derivative of the q-th node from its end
func DeriveSPN(S, storage, tk, itk, c) (r, k)
  reveal spn.TopSortTarjan
  uses deriv
  requires wfNet() && node(S) && polyIn() && drvOK()
  requires storOK(storage) && infd(storage, itk) && tk != itk && (tk < 0 || (in(tk, storage.tables) && (forall n ref :: {node(n)} node(n) ==> !sHas(storage, tk, n, 0))))
  modifies storage.tickets, map(storage.tables), all("md.spn.SPN:map[int]float64"), all("mv.spn.SPN:map[int]float64"), all("md.int:float64"), all("mv.int:float64")
  ghostvar W View
  ghostvar D [int]Real
  ghostvar A [ref]Real
  ghostvar par [ref]ref
  ghostvar pix [ref]int
  aftercall spn.TopSortTarjan par = $gv_par
  aftercall spn.TopSortTarjan pix = $gv_pix
  afterapply utils.LogSumExpPair expr_logr(expr($arg0) + expr($arg1))
  ensures r == S && storOK(storage) && in(k, storage.tables) && (tk >= 0 ==> k == tk) && (tk < 0 ==> !old(in(k, storage.tables)))
  ensures at(W, W.lo, S) && sorted(W, W.lo) && linked(W, W.lo, par, pix, S)
  ensures forall q int :: {D[q]} 0 <= q && q < W.hi - W.lo ==> D[q] == ind1(W.arr[W.hi - 1 - q] == S) + esum(W.arr, D, W.hi, W.hi - W.lo, W.arr[W.hi - 1 - q])
  ensures forall q int :: {D[q]} 0 <= q && q < W.hi - W.lo ==> sHas(storage, k, W.arr[W.hi - 1 - q], 0) && expr(sVal(storage, k, W.arr[W.hi - 1 - q], 0)) == D[q]
  ensures forall q int :: {D[q]} 0 <= q && q < W.hi - W.lo ==> fin(sVal(storage, k, W.arr[W.hi - 1 - q], 0)) || sVal(storage, k, W.arr[W.hi - 1 - q], 0) == NInf
  ensures forall q int, T SPN, j int :: {sHas(storage, q, T, j)} {sVal(storage, q, T, j)} q != k || j != 0 || !node(T) ==> sHas(storage, q, T, j) == old(sHas(storage, q, T, j)) && sVal(storage, q, T, j) == old(sVal(storage, q, T, j))
  loop 1
    init W = T.view
    init A = unit(S)
    step D = store(D, W.hi - T.view.hi - 1, A[W.arr[T.view.hi]])
    invariant T.view == mkview(W.arr, W.lo, T.view.hi, W.idx) && W.lo <= T.view.hi && T.view.hi <= W.hi && at(W, W.lo, S) && sorted(W, W.lo) && linked(W, W.lo, par, pix, S)
    invariant tHas(table, S, 0) && (forall p int, i int :: {ch(W.arr[p])[i]} T.view.hi <= p && p < W.hi && 0 <= i && i < len(ch(W.arr[p])) ==> tHas(table, ch(W.arr[p])[i], 0))
    invariant storOK(storage) && in(tk, storage.tables) && table == storage.tables[tk] && tabOK(table) && inf == storage.tables[itk]
    invariant forall n SPN :: {A[n]} {tHas(table, n, 0)} node(n) ==> acc(table, n) == A[n]
    invariant forall n ref :: {A[n]} node(n) ==> A[n] == ind1(n == S) + esum(W.arr, D, W.hi, W.hi - T.view.hi, n)
    invariant forall n SPN :: {tHas(table, n, 0)} node(n) && tHas(table, n, 0) ==> fin(tVal(table, n, 0)) || tVal(table, n, 0) == NInf
    invariant forall q int :: {D[q]} 0 <= q && q < W.hi - T.view.hi ==> D[q] == A[W.arr[W.hi - 1 - q]]
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != table ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(table, T, j)} {tVal(table, T, j)} j != 0 || !node(T) ==> tHas(table, T, j) == pre(tHas(table, T, j)) && tVal(table, T, j) == pre(tVal(table, T, j))
  endloop
  loop 2
    step A = store(A, ch(s)[$k-1], A[ch(s)[$k-1]] + emul(expr(pv), fac(s)[$k-1]))
    apply emul_w(wt(s)[$k-1], pv)
    invariant node(s) && s == W.arr[T.view.hi] && A[s] == expr(pv) && (fin(pv) || pv == NInf)
    invariant tHas(table, S, 0) && (forall p int, i int :: {ch(W.arr[p])[i]} T.view.hi + 1 <= p && p < W.hi && 0 <= i && i < len(ch(W.arr[p])) ==> tHas(table, ch(W.arr[p])[i], 0))
    invariant tHas(table, s, 0) && (forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> tHas(table, ch(s)[i], 0))
    invariant storOK(storage) && in(tk, storage.tables) && table == storage.tables[tk] && tabOK(table) && inf == storage.tables[itk]
    invariant forall n SPN :: {A[n]} {tHas(table, n, 0)} node(n) ==> acc(table, n) == A[n]
    invariant forall n ref :: {A[n]} node(n) ==> A[n] == ind1(n == S) + esum(W.arr, D, W.hi, W.hi - T.view.hi - 1, n) + erow(s, n, expr(pv), $k)
    invariant forall n SPN :: {tHas(table, n, 0)} node(n) && tHas(table, n, 0) ==> fin(tVal(table, n, 0)) || tVal(table, n, 0) == NInf
    invariant forall q int :: {D[q]} 0 <= q && q < W.hi - T.view.hi - 1 ==> D[q] == A[W.arr[W.hi - 1 - q]]
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != table ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(table, T, j)} {tVal(table, T, j)} j != 0 || !node(T) ==> tHas(table, T, j) == pre(tHas(table, T, j)) && tVal(table, T, j) == pre(tVal(table, T, j))
  endloop
  loop 3
    step A = store(A, ch(s)[$k-1], A[ch(s)[$k-1]] + emul(expr(pv), fac(s)[$k-1]))
    apply emul_log(expr(pv), prodx(cp(s), $k-1, len(ch(s))))
    invariant node(s) && s == W.arr[T.view.hi] && A[s] == expr(pv) && (fin(pv) || pv == NInf)
    invariant tHas(table, S, 0) && (forall p int, i int :: {ch(W.arr[p])[i]} T.view.hi + 1 <= p && p < W.hi && 0 <= i && i < len(ch(W.arr[p])) ==> tHas(table, ch(W.arr[p])[i], 0))
    invariant tHas(table, s, 0) && (forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> tHas(table, ch(s)[i], 0))
    invariant storOK(storage) && in(tk, storage.tables) && table == storage.tables[tk] && tabOK(table) && inf == storage.tables[itk]
    invariant forall n SPN :: {A[n]} {tHas(table, n, 0)} node(n) ==> acc(table, n) == A[n]
    invariant forall n ref :: {A[n]} node(n) ==> A[n] == ind1(n == S) + esum(W.arr, D, W.hi, W.hi - T.view.hi - 1, n) + erow(s, n, expr(pv), $k)
    invariant forall n SPN :: {tHas(table, n, 0)} node(n) && tHas(table, n, 0) ==> fin(tVal(table, n, 0)) || tVal(table, n, 0) == NInf
    invariant forall q int :: {D[q]} 0 <= q && q < W.hi - T.view.hi - 1 ==> D[q] == A[W.arr[W.hi - 1 - q]]
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != table ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(table, T, j)} {tVal(table, T, j)} j != 0 || !node(T) ==> tHas(table, T, j) == pre(tHas(table, T, j)) && tVal(table, T, j) == pre(tVal(table, T, j))
  endloop
  loop 4
    apply logr_expr(pv)
    apply emul_step(expr(pv), prodx(cp(s), $k3, $k-1), cp(s)[$k-1])
    invariant t == logr(emul(expr(pv), prodx(cp(s), $k3, $k)))
  endloop

package spn
theory wset
uses net
fun emptyset() [ref]bool
  axiom forall n ref :: {emptyset()[n]} !emptyset()[n]
// the derivative of the i-th weight of n: the product of the child's value and n's derivative
fun dwv(n ref) [int]F
// the same, added to what the table holds already
fun dwb(n ref) [int]F
endtheory
// pending nodes are in v, handled ones in R; together they are the visited ones
def pendx(v View, V map[SPN]bool, R [ref]bool, x ref) bool = v.lo <= v.hi && (forall p int :: {v.arr[p]} v.lo <= p && p < v.hi ==> vis(V, v.arr[p]) && v.idx[v.arr[p]] == p && !R[v.arr[p]] && v.arr[p] != x) && (forall n ref :: {in(n, V)} vis(V, n) ==> node(n) && (at(v, v.lo, n) || R[n] || n == x)) && (forall n ref :: {R[n]} R[n] ==> vis(V, n)) && (forall n ref, i int :: {ch(n)[i]} R[n] && 0 <= i && i < len(ch(n)) ==> vis(V, ch(n)[i]) || isLeaf(ch(n)[i]))
def pend(v View, V map[SPN]bool, R [ref]bool) bool = pendx(v, V, R, nil)
def pend1(v View, V map[SPN]bool, R [ref]bool, x ref) bool = pendx(v, V, R, x) && vis(V, x) && !R[x]

package learn
func DeriveWeights(S, storage, tk, dtk, itk, c) (r, k)
  uses wset
  requires wfNet() && node(S)
  requires storOK(storage) && in(itk, storage.tables) && in(dtk, storage.tables) && tk != itk && tk != dtk && (tk < 0 || in(tk, storage.tables))
  requires c != nil ==> (typeis(c, "*common.Queue") || typeis(c, "*common.Stack")) && c.view.lo == c.view.hi
  requires forall n ref, i int :: {ch(n)[i]} {dwv(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> dwv(n)[i] == sVal(storage, itk, ch(n)[i], 0) + sVal(storage, dtk, n, 0)
  modifies c.view, storage.tickets, map(storage.tables), all("md.spn.SPN:map[int]float64"), all("mv.spn.SPN:map[int]float64"), all("md.int:float64"), all("mv.int:float64")
  ghostvar R [ref]bool
  ghostvar cur ref
  aftercall common.Collection.Take cur = $res0
  // R is a set of nodes with the root and the inner children of its nodes, each handled once
  ensures r == S && storOK(storage) && in(k, storage.tables) && (tk >= 0 ==> k == tk) && (tk < 0 ==> !old(in(k, storage.tables)))
  ensures R[S] && (forall n ref :: {R[n]} R[n] ==> node(n)) && (forall n ref, i int :: {R[n], ch(n)[i]} R[n] && 0 <= i && i < len(ch(n)) ==> R[ch(n)[i]] || isLeaf(ch(n)[i]))
  ensures forall n SPN, i int :: {sHas(storage, k, n, i)} {dwv(n)[i]} R[n] && isSum(n) && 0 <= i && i < len(ch(n)) ==> sHas(storage, k, n, i) && sVal(storage, k, n, i) == dwv(n)[i]
  ensures forall q int, T SPN, j int :: {sHas(storage, q, T, j)} {sVal(storage, q, T, j)} q != k || !R[T] || !isSum(T) || j < 0 || j >= len(ch(T)) ==> sHas(storage, q, T, j) == old(sHas(storage, q, T, j)) && sVal(storage, q, T, j) == old(sVal(storage, q, T, j))
  loop 1
    init R = emptyset()
    step R = store(R, cur, true)
    invariant storOK(storage) && in(tk, storage.tables) && wt == storage.tables[tk] && tabOK(wt) && st == storage.tables[dtk] && it == storage.tables[itk] && tabOK(it) && tabOK(st) && wt != st && wt != it
    invariant typeis(c, "*common.Queue") || typeis(c, "*common.Stack")
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != wt ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(it, T, j)} {tVal(it, T, j)} tHas(it, T, j) == old(sHas(storage, itk, T, j)) && tVal(it, T, j) == old(sVal(storage, itk, T, j))
    invariant forall T SPN, j int :: {tHas(st, T, j)} {tVal(st, T, j)} tHas(st, T, j) == old(sHas(storage, dtk, T, j)) && tVal(st, T, j) == old(sVal(storage, dtk, T, j))
    invariant pend(c.view, visited, R) && vis(visited, S)
    invariant forall n SPN :: {R[n]} {in(n, wt)} R[n] && isSum(n) ==> in(n, wt)
    invariant forall n SPN, i int :: {in(i, wt[n])} {dwv(n)[i]} R[n] && isSum(n) && 0 <= i && i < len(ch(n)) ==> in(i, wt[n]) && tVal(wt, n, i) == dwv(n)[i]
    invariant forall T SPN, j int :: {tHas(wt, T, j)} {tVal(wt, T, j)} !R[T] || !isSum(T) || j < 0 || j >= len(ch(T)) ==> tHas(wt, T, j) == pre(tHas(wt, T, j)) && tVal(wt, T, j) == pre(tVal(wt, T, j))
  endloop
  loop 2
    invariant node(s) && isSum(s) && !R[s] && cur == s
    invariant storOK(storage) && in(tk, storage.tables) && wt == storage.tables[tk] && tabOK(wt) && st == storage.tables[dtk] && it == storage.tables[itk] && tabOK(it) && tabOK(st) && wt != st && wt != it
    invariant typeis(c, "*common.Queue") || typeis(c, "*common.Stack")
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != wt ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(it, T, j)} {tVal(it, T, j)} tHas(it, T, j) == old(sHas(storage, itk, T, j)) && tVal(it, T, j) == old(sVal(storage, itk, T, j))
    invariant forall T SPN, j int :: {tHas(st, T, j)} {tVal(st, T, j)} tHas(st, T, j) == old(sHas(storage, dtk, T, j)) && tVal(st, T, j) == old(sVal(storage, dtk, T, j))
    invariant forall n SPN :: {R[n]} {in(n, wt)} R[n] && isSum(n) || n == s && $k > 0 ==> in(n, wt)
    invariant forall n SPN, i int :: {in(i, wt[n])} {dwv(n)[i]} (R[n] && isSum(n) && 0 <= i && i < len(ch(n)) || n == s && 0 <= i && i < $k) ==> in(i, wt[n]) && tVal(wt, n, i) == dwv(n)[i]
    invariant forall T SPN, j int :: {tHas(wt, T, j)} {tVal(wt, T, j)} !(R[T] && isSum(T) && 0 <= j && j < len(ch(T)) || T == s && 0 <= j && j < $k) ==> tHas(wt, T, j) == pre(tHas(wt, T, j)) && tVal(wt, T, j) == pre(tVal(wt, T, j))
  endloop
  loop 3
    invariant pend1(c.view, visited, R, s) && cur == s && vis(visited, S) && (typeis(c, "*common.Queue") || typeis(c, "*common.Stack"))
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(visited, ch(s)[i]) || isLeaf(ch(s)[i])
  endloop

func DeriveWeightsBatch(S, storage, tk, dtk, itk, c) (r, k)
  uses wset
  requires wfNet() && node(S)
  requires storOK(storage) && in(itk, storage.tables) && in(dtk, storage.tables) && tk != itk && tk != dtk && (tk < 0 || in(tk, storage.tables))
  requires c != nil ==> (typeis(c, "*common.Queue") || typeis(c, "*common.Stack")) && c.view.lo == c.view.hi
  requires forall n ref, i int :: {ch(n)[i]} {dwv(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> dwv(n)[i] == sVal(storage, itk, ch(n)[i], 0) + sVal(storage, dtk, n, 0)
  requires forall n ref, i int :: {dwv(n)[i]} node(n) && isSum(n) && 0 <= i && i < len(ch(n)) ==> fin(dwv(n)[i]) || dwv(n)[i] == NInf
  requires forall n SPN, i int :: {sHas(storage, tk, n, i)} {dwb(n)[i]} node(n) && isSum(n) && 0 <= i && i < len(ch(n)) && sHas(storage, tk, n, i) ==> fin(sVal(storage, tk, n, i)) || sVal(storage, tk, n, i) == NInf
  requires forall n SPN, i int :: {dwb(n)[i]} {ch(n)[i]} node(n) && isSum(n) && 0 <= i && i < len(ch(n)) ==> dwb(n)[i] == ite(sHas(storage, tk, n, i), logr(expr(dwv(n)[i]) + expr(sVal(storage, tk, n, i))), dwv(n)[i])
  modifies c.view, storage.tickets, map(storage.tables), all("md.spn.SPN:map[int]float64"), all("mv.spn.SPN:map[int]float64"), all("md.int:float64"), all("mv.int:float64")
  ghostvar R [ref]bool
  ghostvar cur ref
  aftercall common.Collection.Take cur = $res0
  // R is a set of nodes with the root and the inner children of its nodes, each handled once
  ensures r == S && storOK(storage) && in(k, storage.tables) && (tk >= 0 ==> k == tk) && (tk < 0 ==> !old(in(k, storage.tables)))
  ensures R[S] && (forall n ref :: {R[n]} R[n] ==> node(n)) && (forall n ref, i int :: {R[n], ch(n)[i]} R[n] && 0 <= i && i < len(ch(n)) ==> R[ch(n)[i]] || isLeaf(ch(n)[i]))
  ensures forall n SPN, i int :: {sHas(storage, k, n, i)} {dwb(n)[i]} R[n] && isSum(n) && 0 <= i && i < len(ch(n)) ==> sHas(storage, k, n, i) && sVal(storage, k, n, i) == dwb(n)[i]
  ensures forall q int, T SPN, j int :: {sHas(storage, q, T, j)} {sVal(storage, q, T, j)} q != k || !R[T] || !isSum(T) || j < 0 || j >= len(ch(T)) ==> sHas(storage, q, T, j) == old(sHas(storage, q, T, j)) && sVal(storage, q, T, j) == old(sVal(storage, q, T, j))
  loop 1
    init R = emptyset()
    step R = store(R, cur, true)
    invariant storOK(storage) && in(tk, storage.tables) && wt == storage.tables[tk] && tabOK(wt) && st == storage.tables[dtk] && it == storage.tables[itk] && tabOK(it) && tabOK(st) && wt != st && wt != it
    invariant typeis(c, "*common.Queue") || typeis(c, "*common.Stack")
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != wt ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(it, T, j)} {tVal(it, T, j)} tHas(it, T, j) == old(sHas(storage, itk, T, j)) && tVal(it, T, j) == old(sVal(storage, itk, T, j))
    invariant forall T SPN, j int :: {tHas(st, T, j)} {tVal(st, T, j)} tHas(st, T, j) == old(sHas(storage, dtk, T, j)) && tVal(st, T, j) == old(sVal(storage, dtk, T, j))
    invariant pend(c.view, visited, R) && vis(visited, S)
    invariant forall n SPN :: {R[n]} {in(n, wt)} R[n] && isSum(n) ==> in(n, wt)
    invariant forall n SPN, i int :: {in(i, wt[n])} {dwb(n)[i]} R[n] && isSum(n) && 0 <= i && i < len(ch(n)) ==> in(i, wt[n]) && tVal(wt, n, i) == dwb(n)[i]
    invariant forall T SPN, j int :: {tHas(wt, T, j)} {tVal(wt, T, j)} !R[T] || !isSum(T) || j < 0 || j >= len(ch(T)) ==> tHas(wt, T, j) == old(sHas(storage, tk, T, j)) && tVal(wt, T, j) == old(sVal(storage, tk, T, j))
  endloop
  loop 2
    invariant node(s) && isSum(s) && !R[s] && cur == s
    invariant storOK(storage) && in(tk, storage.tables) && wt == storage.tables[tk] && tabOK(wt) && st == storage.tables[dtk] && it == storage.tables[itk] && tabOK(it) && tabOK(st) && wt != st && wt != it
    invariant typeis(c, "*common.Queue") || typeis(c, "*common.Stack")
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != wt ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(it, T, j)} {tVal(it, T, j)} tHas(it, T, j) == old(sHas(storage, itk, T, j)) && tVal(it, T, j) == old(sVal(storage, itk, T, j))
    invariant forall T SPN, j int :: {tHas(st, T, j)} {tVal(st, T, j)} tHas(st, T, j) == old(sHas(storage, dtk, T, j)) && tVal(st, T, j) == old(sVal(storage, dtk, T, j))
    invariant forall n SPN :: {R[n]} {in(n, wt)} R[n] && isSum(n) || n == s && $k > 0 ==> in(n, wt)
    invariant forall n SPN, i int :: {in(i, wt[n])} {dwb(n)[i]} (R[n] && isSum(n) && 0 <= i && i < len(ch(n)) || n == s && 0 <= i && i < $k) ==> in(i, wt[n]) && tVal(wt, n, i) == dwb(n)[i]
    invariant forall T SPN, j int :: {tHas(wt, T, j)} {tVal(wt, T, j)} !(R[T] && isSum(T) && 0 <= j && j < len(ch(T)) || T == s && 0 <= j && j < $k) ==> tHas(wt, T, j) == old(sHas(storage, tk, T, j)) && tVal(wt, T, j) == old(sVal(storage, tk, T, j))
  endloop
  loop 3
    invariant pend1(c.view, visited, R, s) && cur == s && vis(visited, S) && (typeis(c, "*common.Queue") || typeis(c, "*common.Stack"))
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(visited, ch(s)[i]) || isLeaf(ch(s)[i])
  endloop

property C07 learn.DeriveSPN learn.DeriveWeights learn.DeriveWeightsBatch lemma:esum_upd lemma:erow_zero lemma:prodx_nn lemma:emul_w lemma:emul_step lemma:emul_log spn.TopSortTarjan
