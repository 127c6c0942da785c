package distuv
func Normal.LogProb(n, x) (r)
  trusted gonum: log-density of the normal distribution
  uses normal
  requires fin(n.Mu) && fin(n.Sigma) && rv(n.Sigma) > 0.0 && fin(x)
  ensures r == F(normlog(rv(n.Mu), rv(n.Sigma), rv(x)))

package spn
theory normal
uses reals
// log-density: half of ln(2 pi) is a constant
fun hlt() Real
def normlog(mu Real, sg Real, x Real) Real = 0.0 - hlt() - ln(sg) - (x - mu) * (x - mu) / (2.0 * sg * sg)
endtheory

// ---- kinds and parameters of nodes ----
def isSum(n ref) bool = typeis(n, "*spn.Sum")
def isProd(n ref) bool = typeis(n, "*spn.Product")
def isInd(n ref) bool = typeis(n, "*spn.Indicator")
def isMul(n ref) bool = typeis(n, "*spn.Multinomial")
def isGau(n ref) bool = typeis(n, "*spn.Gaussian")
def isLeaf(n ref) bool = isInd(n) || isMul(n) || isGau(n)
def wt(n ref) []float64 = fld("spn.Sum.w", n)
def pr(n ref) []float64 = fld("spn.Multinomial.pr", n)
def mu(n ref) F = fld("spn.Gaussian.dist", n).Mu
def sg(n ref) F = fld("spn.Gaussian.dist", n).Sigma
def varid(n ref) int = ite(isInd(n), fld("spn.Indicator.varid", n), ite(isMul(n), fld("spn.Multinomial.varid", n), fld("spn.Gaussian.varid", n)))
// log-value of leaf n when its variable is observed (o) with value v, or not
def lval(n ref, o bool, v int) F = ite(!o, F(0.0), ite(isInd(n), ite(v == fld("spn.Indicator.v", n), F(0.0), NInf), ite(isMul(n), flog(pr(n)[v]), ite(sg(n) == F(0.0), ite(v == trunc(rv(mu(n))), F(0.0), NInf), F(normlog(rv(mu(n)), rv(sg(n)), real(v)))))))
def mode(n ref) spn.Mode = fld("spn.Multinomial.mode", n)
def mulOK(n ref) bool = len(pr(n)) > 0 && 0 <= mode(n).index && mode(n).index < len(pr(n)) && mode(n).val == pr(n)[mode(n).index] && (forall i int :: {pr(n)[i]} 0 <= i && i < len(pr(n)) ==> pr(n)[i] <= mode(n).val) && (forall i int :: {pr(n)[i]} 0 <= i && i < len(pr(n)) ==> fin(pr(n)[i]) && rv(pr(n)[i]) >= 0.0)
def gauOK(n ref) bool = fin(mu(n)) && fin(sg(n)) && rv(sg(n)) >= 0.0
def sc(n ref) []int = fld("spn.Node.sc", n)
def leafOK(n ref) bool = isLeaf(n) && len(sc(n)) == 1 && sc(n)[0] == varid(n) && (isMul(n) ==> mulOK(n)) && (isGau(n) ==> gauOK(n))
def inDom(n ref, I VarSet) bool = isMul(n) && in(varid(n), I) ==> 0 <= I[varid(n)] && I[varid(n)] < len(pr(n))

func Indicator.Value(i, I) (r)
  ensures r == lval(i, in(varid(i), I), I[varid(i)])
func Multinomial.Value(m, I) (r)
  requires mulOK(m) && inDom(m, I)
  ensures r == lval(m, in(varid(m), I), I[varid(m)])
func Gaussian.Value(g, I) (r)
  uses normal
  requires gauOK(g)
  ensures r == lval(g, in(varid(g), I), I[varid(g)])
property C09 spn.Indicator.Value spn.Multinomial.Value spn.Gaussian.Value

// ---- the network polynomial ----
theory poly
uses sumexp net logmul
// P(n): a value for every node; cp(n): the values of the children of n
fun P(n ref) Real
fun cp(n ref) [int]Real
rec dot(w [int]F, c [int]Real, n int) Real = ite(n <= 0, 0.0, dot(w, c, n-1) + rv(w[n-1]) * c[n-1])
rec prodr(c [int]Real, n int) Real = ite(n <= 0, 1.0, prodr(c, n-1) * c[n-1])
rec prodexp(a [int]F, n int) Real = ite(n <= 0, 1.0, prodexp(a, n-1) * expr(a[n-1]))
lemma exp_wlog(w F, c Real)
  requires fin(w) && rv(w) >= 0.0 && c >= 0.0
  ensures expr(logr(c) + flog(w)) == rv(w) * c && (fin(logr(c) + flog(w)) || logr(c) + flog(w) == NInf)
  noauto
  apply logr_mul(c, rv(w))
  apply expr_logr(c * rv(w))
lemma dot_log(w [int]F, c [int]Real, a [int]F, n int) induct n
  requires forall i int :: {a[i]} 0 <= i && i < n ==> fin(w[i]) && rv(w[i]) >= 0.0 && c[i] >= 0.0 && a[i] == logr(c[i]) + flog(w[i])
  ensures sumexp(a, n) == dot(w, c, n)
  noauto
  apply n > 0 ==> exp_wlog(w[n-1], c[n-1])
lemma prodexp_nn(a [int]F, n int) induct n
  ensures prodexp(a, n) >= 0.0
  trigger prodexp(a, n)
lemma prod_log(c [int]Real, a [int]F, n int) induct n
  requires forall i int :: {a[i]} 0 <= i && i < n ==> c[i] >= 0.0 && a[i] == logr(c[i])
  ensures prodexp(a, n) == prodr(c, n)
  noauto
  apply n > 0 ==> expr_logr(c[n-1])
endtheory

def sumOK(n ref) bool = len(ch(n)) > 0 && len(wt(n)) == len(ch(n)) && (forall i int :: {wt(n)[i]} 0 <= i && i < len(wt(n)) ==> fin(wt(n)[i]) && rv(wt(n)[i]) >= 0.0)
def wfNet() bool = netOK() && (forall n ref :: {node(n)} node(n) ==> (isSum(n) && sumOK(n)) || (isProd(n) && len(ch(n)) > 0) || (leafOK(n) && len(ch(n)) == 0))
def polyIn() bool = (forall n ref :: {node(n)} node(n) ==> P(n) >= 0.0 && (isSum(n) ==> P(n) == dot(elems(wt(n)), cp(n), len(ch(n)))) && (isProd(n) ==> P(n) == prodr(cp(n), len(ch(n))))) && (forall n ref, i int :: {ch(n)[i]} {cp(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> cp(n)[i] == P(ch(n)[i]))
def polyLf(I VarSet) bool = forall n ref :: {node(n)} node(n) && isLeaf(n) ==> inDom(n, I) && logr(P(n)) == lval(n, in(varid(n), I), I[varid(n)])
def polyOK(I VarSet) bool = polyIn() && polyLf(I)

func Sum.Compute(s, cv) (r)
  nolike
  requires len(cv) > 0
  requires forall i int :: 0 <= i && i < len(cv) ==> fin(cv[i]) || cv[i] == NInf
  uses sumexp
  ensures r == logr(sumexp(elems(cv), len(cv)))
func Product.Compute(p, cv) (r)
  nolike
  uses poly
  requires forall i int :: {cv[i]} 0 <= i && i < len(cv) ==> fin(cv[i]) || cv[i] == NInf
  ensures r == logr(prodexp(elems(cv), len(cv)))
  loop 1
    apply logr_mul(prodexp(elems(cv), $k-1), expr(cv[$k-1]))
    apply logr_expr(cv[$k-1])
    invariant r == logr(prodexp(elems(cv), $k))
  endloop

func SPN.Value(n, I) (r)
  uses poly normal
  requires wfNet() && node(n) && ite(isLeaf(n), inDom(n, I), polyOK(I))
  decreases rank(n)
  ensures isLeaf(n) ==> r == lval(n, in(varid(n), I), I[varid(n)])
  ensures polyOK(I) ==> r == logr(P(n))
func Sum.Value(self, I) (r)
  loop 1
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(self)[j]) + flog(wt(self)[j])
  endloop
  callapply spn.Sum.Compute dot_log(elems(wt(self)), cp(self), elems($arg1), len(ch(self)))
func Product.Value(self, I) (r)
  loop 1
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(self)[j])
  endloop
  callapply spn.Product.Compute prod_log(cp(self), elems($arg1), len(ch(self)))

func Node.Value(self, I) (r)
  nosmoke

func SPN.Type(n) (r)
  ensures (isSum(n) ==> r == "sum") && (isProd(n) ==> r == "product") && (isLeaf(n) ==> r == "leaf")

// positions lo..hi-1 of v hold nodes whose value in V is the logarithm of the polynomial
def valued(V map[SPN]float64, v View, lo int, hi int) bool = forall p int :: {v.arr[p]} lo <= p && p < hi ==> in(v.arr[p], V) && V[v.arr[p]] == logr(P(v.arr[p]))
def taken(v View, o View) bool = v.arr == o.arr && v.idx == o.idx && v.hi == o.hi && o.lo <= v.lo && v.lo <= v.hi

func Inference(S, I) (r)
  uses poly normal
  requires wfNet() && node(S) && polyOK(I)
  ensures r == logr(P(S))
  callapply spn.Sum.Compute dot_log(elems(wt($arg0)), cp($arg0), elems($arg1), len(ch($arg0)))
  callapply spn.Product.Compute prod_log(cp($arg0), elems($arg1), len(ch($arg0)))
  loop 1
    invariant taken(O.view, pre(O.view))
    invariant valued(V, O.view, pre(O.view).lo, O.view.lo)
  endloop
  loop 2
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j]) + flog(wt(s)[j])
  endloop
  loop 3
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j])
  endloop

// stored values: positions lo..hi-1 of v hold nodes whose stored value under ticket k is the logarithm of the polynomial
def stored(s *Storer, k int, v View, lo int, hi int) bool = forall p int :: {v.arr[p]} lo <= p && p < hi ==> sHas(s, k, v.arr[p], 0) && sVal(s, k, v.arr[p], 0) == logr(P(v.arr[p]))
func StoreInference(S, I, tk, storage) (r, k)
  uses poly normal
  requires wfNet() && node(S) && polyOK(I)
  requires storOK(storage) && (tk < 0 || in(tk, storage.tables))
  modifies storage.tickets, map(storage.tables), all("md.spn.SPN:map[int]float64"), all("mv.spn.SPN:map[int]float64"), all("md.int:float64"), all("mv.int:float64")
  ghostvar W View
  ensures r == S && storOK(storage) && in(k, storage.tables) && (tk >= 0 ==> k == tk) && (tk < 0 ==> !old(in(k, storage.tables)))
  ensures at(W, W.lo, S) && sorted(W, W.lo) && stored(storage, k, W, W.lo, W.hi)
  ensures forall q int, T SPN, j int :: {sHas(storage, q, T, j)} {sVal(storage, q, T, j)} q != k || j != 0 || !node(T) ==> sHas(storage, q, T, j) == old(sHas(storage, q, T, j)) && sVal(storage, q, T, j) == old(sVal(storage, q, T, j))
  ensures forall q int :: {in(q, storage.tables)} q != k ==> in(q, storage.tables) == old(in(q, storage.tables))
  callapply spn.Sum.Compute dot_log(elems(wt($arg0)), cp($arg0), elems($arg1), len(ch($arg0)))
  callapply spn.Product.Compute prod_log(cp($arg0), elems($arg1), len(ch($arg0)))
  loop 1
    init W = O.view
    invariant W == pre(O.view) && taken(O.view, W)
    invariant storOK(storage) && in(tk, storage.tables) && table == storage.tables[tk]
    invariant stored(storage, tk, W, W.lo, O.view.lo)
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != table ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(table, T, j)} {tVal(table, T, j)} j != 0 || !node(T) ==> tHas(table, T, j) == pre(tHas(table, T, j)) && tVal(table, T, j) == pre(tVal(table, T, j))
  endloop
  loop 2
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j]) + flog(wt(s)[j])
  endloop
  loop 3
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j])
  endloop

func SPN.Sc(n) (r)
  requires wfNet() && node(n)
  modifies all("f.spn.Node.sc")
  decreases rank(n)
  ensures isLeaf(n) ==> r == sc(n) && (forall m ref :: {sc(m)} sc(m) == old(sc(m)))
  ensures forall m ref :: {sc(m)} isLeaf(m) ==> sc(m) == old(sc(m))
func Product.Sc(self) (r)
  loop 1
    invariant isProd(self) && (arr(sc(self)) == 0 || fresh(sc(self)))
    invariant forall m ref :: {sc(m)} isLeaf(m) ==> sc(m) == old(sc(m))
  endloop

def polyLfY(I VarSet, Y int, y int) bool = forall n ref :: {node(n)} node(n) && isLeaf(n) ==> (varid(n) == Y && (isMul(n) ==> 0 <= y && y < len(pr(n))) && logr(P(n)) == lval(n, true, y)) || (varid(n) != Y && inDom(n, I) && logr(P(n)) == lval(n, in(varid(n), I), I[varid(n)]))
func InferenceY(S, I, Y, y) (r)
  uses poly normal
  requires wfNet() && node(S) && polyIn() && polyLfY(I, Y, y)
  modifies all("f.spn.Node.sc")
  ensures r == logr(P(S))
  ensures forall m ref :: {sc(m)} sc(m) == old(sc(m))
  callapply spn.Sum.Compute dot_log(elems(wt($arg0)), cp($arg0), elems($arg1), len(ch($arg0)))
  callapply spn.Product.Compute prod_log(cp($arg0), elems($arg1), len(ch($arg0)))
  loop 1
    invariant taken(O.view, pre(O.view))
    invariant valued(V, O.view, pre(O.view).lo, O.view.lo)
    invariant forall m ref :: {sc(m)} sc(m) == old(sc(m))
  endloop
  loop 2
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j]) + flog(wt(s)[j])
  endloop
  loop 3
    invariant forall j int :: {vals[j]} 0 <= j && j < $k ==> vals[j] == logr(cp(s)[j])
  endloop

property C02 spn.SPN.Value spn.SPN.Type spn.SPN.Sc spn.Inference spn.InferenceY spn.StoreInference lemma:exp_wlog lemma:dot_log lemma:prod_log
