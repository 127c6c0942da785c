package sys
func RandIntn(n) (r)
  trusted math/rand: a pseudo-random number in [0, n); the generator's state is not observable otherwise
  requires n > 0
  ensures 0 <= r && r < n

package spn
// ---- leaves: constructors, MAP value and state ----
def frac(a Real, b Real) F = F(a / b)
theory leafs
uses reals
rec csum(c [int]int, n int) Real = ite(n <= 0, 0.0, csum(c, n-1) + real(c[n-1]))
rec csum1(c [int]int, n int) Real = ite(n <= 0, 0.0, csum1(c, n-1) + 1.0 + real(c[n-1]))
rec cmean(c [int]int, N Real, n int) Real = ite(n <= 0, 0.0, cmean(c, N, n-1) + real(c[n-1]) / N * real(n-1))
rec cvar(c [int]int, N Real, m Real, n int) Real = ite(n <= 0, 0.0, cvar(c, N, m, n-1) + real(c[n-1]) / N * (real(n-1) - m) * (real(n-1) - m))
rec fsum(a [int]F, n int) Real = ite(n <= 0, 0.0, fsum(a, n-1) + rv(a[n-1]))
rec fsq(a [int]F, m Real, n int) Real = ite(n <= 0, 0.0, fsq(a, m, n-1) + (rv(a[n-1]) - m) * (rv(a[n-1]) - m))
rec pmean(a [int]F, n int) Real = ite(n <= 0, 0.0, pmean(a, n-1) + rv(a[n-1]) * real(n-1))
rec pvar(a [int]F, m Real, n int) Real = ite(n <= 0, 0.0, pvar(a, m, n-1) + rv(a[n-1]) * (real(n-1) - m) * (real(n-1) - m))
lemma csum1_pos(c [int]int, n int) induct n
  requires forall i int :: {c[i]} 0 <= i && i < n ==> c[i] >= 0
  ensures n > 0 ==> csum1(c, n) >= 1.0
  noauto
lemma div_nn(a Real, b Real)
  requires a >= 0.0 && b > 0.0
  ensures a / b >= 0.0
  noauto
lemma sq_nn(x Real)
  ensures x * x >= 0.0
  noauto
lemma mul_nn(p Real, x Real)
  requires p >= 0.0
  ensures p * x * x >= 0.0
  noauto
  apply sq_nn(x)
endtheory
theory normmax
uses normal leafs
// the density is largest at the mean
lemma normlog_max(mu Real, sg Real, x Real)
  requires sg > 0.0
  ensures normlog(mu, sg, x) <= normlog(mu, sg, mu)
  noauto
  apply div_nn((x - mu) * (x - mu), 2.0 * sg * sg)
endtheory
def lmax(n ref, o bool, v int) F = ite(o, lval(n, true, v), ite(isMul(n), flog(mode(n).val), ite(isGau(n) && sg(n) != F(0.0), F(normlog(rv(mu(n)), rv(sg(n)), rv(mu(n)))), F(0.0))))
// the most probable value of an unobserved leaf
def lbest(n ref) int = ite(isInd(n), fld("spn.Indicator.v", n), ite(isMul(n), mode(n).index, ite(sg(n) == F(0.0), trunc(rv(mu(n))), trunc(rv(fround(mu(n)))))))
def one(m VarSet, k int, v int) bool = forall j int :: {in(j, m)} {m[j]} in(j, m) == (j == k) && (j == k ==> m[j] == v)

func NewIndicator(varid, v) (r)
  ensures fresh(r) && isInd(r) && leafOK(r) && len(ch(r)) == 0
  ensures fld("spn.Indicator.varid", r) == varid && fld("spn.Indicator.v", r) == v
func Indicator.Max(i, I) (r)
  ensures r == lmax(i, in(varid(i), I), I[varid(i)])
  ensures !in(varid(i), I) ==> r == lval(i, true, lbest(i)) && (forall v int :: {lval(i, true, v)} lval(i, true, v) <= r)
func Indicator.ArgMax(i, I) (m, r)
  ensures r == lmax(i, in(varid(i), I), I[varid(i)]) && fresh(m)
  ensures !in(varid(i), I) ==> one(m, varid(i), lbest(i)) && r == lval(i, true, lbest(i))
  ensures in(varid(i), I) ==> (forall j int :: {in(j, m)} in(j, m) ==> j == varid(i) && m[j] == I[varid(i)])
  ensures in(varid(i), I) && r != NInf ==> one(m, varid(i), I[varid(i)])

def distOK(d []float64) bool = len(d) > 0 && (forall i int :: {d[i]} 0 <= i && i < len(d) ==> fin(d[i]) && rv(d[i]) >= 0.0)
func NewMultinomial(varid, dist) (r)
  requires distOK(dist)
  ensures fresh(r) && isMul(r) && leafOK(r) && len(ch(r)) == 0
  ensures pr(r) == dist && varid(r) == varid
  loop 1
    invariant 0 <= nmi && nmi <= $k && len(miv) == len(dist) && fresh(miv)
    invariant $k == 0 ==> m == F(0.0 - 1.0) && nmi == 0
    invariant $k > 0 ==> 0 <= mi && mi < $k && m == dist[mi] && nmi >= 1
    invariant forall j int :: {dist[j]} 0 <= j && j < $k ==> dist[j] <= m
    invariant forall j int :: {miv[j]} 0 <= j && j < nmi ==> 0 <= miv[j] && miv[j] < $k && dist[miv[j]] == m
  endloop
func NewCountingMultinomial(varid, counts) (r)
  uses leafs
  requires len(counts) > 0 && (forall i int :: {counts[i]} 0 <= i && i < len(counts) ==> counts[i] >= 0)
  apply csum1_pos(elems(counts), len(counts))
  ensures fresh(r) && isMul(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid && len(pr(r)) == len(counts)
  ensures forall i int :: {pr(r)[i]} 0 <= i && i < len(counts) ==> pr(r)[i] == F((1.0 + real(counts[i])) / csum1(elems(counts), len(counts)))
  loop 1
    invariant len(pr) == len(counts) && fresh(pr)
    invariant s == F(csum1(elems(counts), $k))
    invariant forall j int :: {pr[j]} 0 <= j && j < $k ==> pr[j] == F(1.0 + real(counts[j]))
  endloop
  loop 2
    apply csum1_pos(elems(counts), len(counts))
    apply div_nn(1.0 + real(counts[$k-1]), csum1(elems(counts), len(counts)))
    invariant forall j int :: {pr[j]} 0 <= j && j < $k ==> rv(pr[j]) >= 0.0
    invariant len(pr) == len(counts) && fresh(pr)
    invariant forall j int :: {pr[j]} 0 <= j && j < len(pr) ==> pr[j] == ite(j < $k, F((1.0 + real(counts[j])) / csum1(elems(counts), len(counts))), F(1.0 + real(counts[j])))
  endloop
  loop 3
    invariant 0 <= nmi && nmi <= $k && len(miv) == len(pr) && fresh(miv)
    invariant $k == 0 ==> m == F(0.0 - 1.0) && nmi == 0
    invariant $k > 0 ==> 0 <= mi && mi < $k && m == pr[mi] && nmi >= 1
    invariant forall j int :: {pr[j]} 0 <= j && j < $k ==> pr[j] <= m
    invariant forall j int :: {miv[j]} 0 <= j && j < nmi ==> 0 <= miv[j] && miv[j] < $k && pr[miv[j]] == m
  endloop
func NewEmptyMultinomial(varid, m) (r)
  requires m > 0
  ensures fresh(r) && isMul(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid && len(pr(r)) == m
  ensures forall i int :: {pr(r)[i]} 0 <= i && i < m ==> pr(r)[i] == F(1.0 / real(m))
  loop 1
    invariant len(pr) == m && (forall j int :: {pr[j]} 0 <= j && j < $k ==> pr[j] == F(1.0 / real(m)))
  endloop
func Multinomial.Pr(m) (r)
  ensures r == pr(m)
func Multinomial.Max(m, I) (r)
  uses reals
  requires mulOK(m) && inDom(m, I)
  ensures r == lmax(m, in(varid(m), I), I[varid(m)])
  ensures !in(varid(m), I) ==> r == lval(m, true, lbest(m)) && (forall v int :: {pr(m)[v]} 0 <= v && v < len(pr(m)) ==> lval(m, true, v) <= r)
func Multinomial.ArgMax(m, I) (s, r)
  uses reals
  requires mulOK(m) && inDom(m, I)
  ensures r == lmax(m, in(varid(m), I), I[varid(m)]) && fresh(s)
  ensures !in(varid(m), I) ==> one(s, varid(m), lbest(m)) && r == lval(m, true, lbest(m))
  ensures in(varid(m), I) ==> one(s, varid(m), I[varid(m)])
func Multinomial.Mean(m) (r)
  uses leafs
  requires mulOK(m)
  ensures r == F(pmean(elems(pr(m)), len(pr(m))))
  loop 1
    invariant mu == F(pmean(elems(pr(m)), $k))
  endloop
func Multinomial.StdDev(m) (r)
  uses leafs
  requires mulOK(m)
  ensures r == fsqrt(F(pvar(elems(pr(m)), pmean(elems(pr(m)), len(pr(m))), len(pr(m)))))
  loop 1
    invariant sd == F(pvar(elems(pr(m)), pmean(elems(pr(m)), len(pr(m))), $k))
  endloop
func Multinomial.MuSigma(m) (a, b)
  uses leafs
  requires mulOK(m)
  ensures a == F(pmean(elems(pr(m)), len(pr(m))))
  ensures b == fsqrt(F(pvar(elems(pr(m)), pmean(elems(pr(m)), len(pr(m))), len(pr(m)))))
  loop 1
    invariant sd == F(pvar(elems(pr(m)), pmean(elems(pr(m)), len(pr(m))), $k))
  endloop

func NewGaussianParams(varid, m, s) (r)
  requires fin(m) && fin(s) && rv(s) >= 0.0
  ensures fresh(r) && isGau(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid && mu(r) == m && sg(r) == s
func NewGaussianRaw(varid, vals) (r)
  uses leafs
  requires len(vals) > 0 && (forall i int :: {vals[i]} 0 <= i && i < len(vals) ==> fin(vals[i]))
  ensures fresh(r) && isGau(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid
  ensures mu(r) == F(fsum(elems(vals), len(vals)) / real(len(vals)))
  ensures sg(r) == fsqrt(F(fsq(elems(vals), rv(mu(r)), len(vals)) / real(len(vals))))
  loop 1
    invariant mean == F(fsum(elems(vals), $k))
  endloop
  loop 2
    apply sq_nn(rv(vals[$k-1]) - rv(mean))
    invariant sd == F(fsq(elems(vals), rv(mean), $k)) && rv(sd) >= 0.0
  endloop
def countsOK(c []int) bool = (forall i int :: {c[i]} 0 <= i && i < len(c) ==> c[i] >= 0)
func NewGaussian(varid, counts) (r)
  uses leafs
  requires countsOK(counts) && csum(elems(counts), len(counts)) > 0.0
  ensures fresh(r) && isGau(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid
  ensures mu(r) == F(cmean(elems(counts), csum(elems(counts), len(counts)), len(counts)))
  ensures sg(r) == fsqrt(F(cvar(elems(counts), csum(elems(counts), len(counts)), rv(mu(r)), len(counts))))
  loop 1
    invariant real(N) == csum(elems(counts), $k)
  endloop
  loop 2
    invariant mean == F(cmean(elems(counts), csum(elems(counts), len(counts)), $k))
  endloop
  loop 3
    apply mul_nn(real(counts[$k-1]) / real(N), real($k-1) - rv(mean))
    invariant sd == F(cvar(elems(counts), csum(elems(counts), len(counts)), rv(mean), $k)) && rv(sd) >= 0.0
  endloop
func NewGaussianMode(varid, counts) (r)
  uses leafs
  ghostvar b int
  requires countsOK(counts) && csum(elems(counts), len(counts)) > 0.0
  ensures fresh(r) && isGau(r) && leafOK(r) && len(ch(r)) == 0 && varid(r) == varid
  ensures 0 <= b && b < len(counts) && mu(r) == F(real(b)) && (forall i int :: {counts[i]} 0 <= i && i < len(counts) ==> counts[i] <= counts[b])
  loop 1
    invariant real(N) == csum(elems(counts), $k)
  endloop
  loop 2
    invariant mean == F(cmean(elems(counts), csum(elems(counts), len(counts)), $k))
  endloop
  loop 3
    init b = 0
    step b = ite(real(counts[$k-1]) == rv(max) && mode == F(real($k-1)), $k-1, b)
    apply mul_nn(real(counts[$k-1]) / real(N), real($k-1) - rv(mean))
    invariant fin(sd) && rv(sd) >= 0.0
    invariant $k == 0 ==> max == NInf
    invariant $k > 0 ==> 0 <= b && b < $k && mode == F(real(b)) && max == F(real(counts[b]))
    invariant forall i int :: {counts[i]} 0 <= i && i < $k ==> F(real(counts[i])) <= max
  endloop
func Gaussian.Max(g, I) (r)
  uses normal
  requires gauOK(g)
  ensures r == lmax(g, in(varid(g), I), I[varid(g)])
func Gaussian.ArgMax(g, I) (m, r)
  uses normal
  requires gauOK(g)
  ensures r == lmax(g, in(varid(g), I), I[varid(g)]) && fresh(m)
  ensures !in(varid(g), I) ==> one(m, varid(g), lbest(g))
  ensures in(varid(g), I) ==> one(m, varid(g), I[varid(g)])
func Gaussian.Params(g) (a, b)
  ensures a == mu(g) && b == sg(g)
property C09 spn.NewIndicator spn.Indicator.Max spn.Indicator.ArgMax spn.NewMultinomial spn.NewCountingMultinomial spn.NewEmptyMultinomial spn.Multinomial.Pr spn.Multinomial.Max spn.Multinomial.ArgMax
property C09 spn.Multinomial.Mean spn.Multinomial.StdDev spn.Multinomial.MuSigma spn.NewGaussianParams spn.NewGaussianRaw spn.NewGaussian spn.NewGaussianMode spn.Gaussian.Max spn.Gaussian.ArgMax spn.Gaussian.Params lemma:normlog_max
// ---- MAP evaluation of the network ----
theory maxp
uses net reals
// M(n): the MAP log-value of every node; cm(n): those of the children of n
fun M(n ref) F
fun cm(n ref) [int]F
// ok(n, j, x): an arbitrary relation closed under taking maximal children of sums and all children of
// products: "every assignment (j, x) of the result is in ok" says that it comes from the leaves of a MAP tree
fun ok(n ref, j int, x int) bool
// need(n, j): an arbitrary relation that descends: what must be assigned at a product must be at one of its
// children (wi), at a sum at every maximal child
fun need(n ref, j int) bool
fun wi(n ref, j int) int
fun cs(n ref) [int]F
// the evidence (domain, values) for which M and ok were fixed at the leaves
fun lfFor(d [int]bool, v [int]int) bool
fun okFor(d [int]bool, v [int]int) bool
rec mxw(m [int]F, n int) F = ite(n <= 0, NInf, ite(m[n-1] > mxw(m, n-1), m[n-1], mxw(m, n-1)))
rec smf(m [int]F, n int) F = ite(n <= 0, F(0.0), smf(m, n-1) + m[n-1])
endtheory
def attains(n ref, i int) bool = 0 <= i && i < len(ch(n)) && cs(n)[i] == M(n)
def maxIn() bool = (forall n ref :: {node(n)} node(n) ==> (fin(M(n)) || M(n) == NInf) && (isSum(n) ==> M(n) == mxw(cs(n), len(ch(n)))) && (isProd(n) ==> M(n) == smf(cm(n), len(ch(n))))) && (forall n ref, i int :: {ch(n)[i]} {cm(n)[i]} node(n) && 0 <= i && i < len(ch(n)) ==> cm(n)[i] == M(ch(n)[i])) && (forall n ref, i int :: {cs(n)[i]} {cm(n)[i]} node(n) && isSum(n) && 0 <= i && i < len(ch(n)) ==> cs(n)[i] == flog(wt(n)[i]) + cm(n)[i])
def maxLf(I VarSet) bool = lfFor(dom(I), mval(I)) && (forall d [int]bool, v [int]int, n ref :: {lfFor(d, v), node(n)} lfFor(d, v) && node(n) && isLeaf(n) ==> (isMul(n) && d[varid(n)] ==> 0 <= v[varid(n)] && v[varid(n)] < len(pr(n))) && M(n) == lmax(n, d[varid(n)], v[varid(n)]))
def maxOK(I VarSet) bool = maxIn() && maxLf(I)
def okIn() bool = forall n ref, i int, j int, x int :: {ch(n)[i], ok(ch(n)[i], j, x)} node(n) && 0 <= i && i < len(ch(n)) && (isProd(n) || attains(n, i)) && ok(ch(n)[i], j, x) ==> ok(n, j, x)
def okLf(I VarSet) bool = okFor(dom(I), mval(I)) && (forall d [int]bool, v [int]int, n ref :: {okFor(d, v), node(n)} okFor(d, v) && node(n) && isLeaf(n) ==> ok(n, varid(n), ite(d[varid(n)], v[varid(n)], lbest(n))))
def needIn() bool = (forall n ref, j int :: {need(n, j)} node(n) && isProd(n) && need(n, j) ==> 0 <= wi(n, j) && wi(n, j) < len(ch(n)) && need(ch(n)[wi(n, j)], j)) && (forall n ref, i int, j int :: {ch(n)[i], need(n, j)} node(n) && isSum(n) && need(n, j) && attains(n, i) ==> need(ch(n)[i], j)) && (forall n ref, j int :: {need(n, j)} node(n) && isLeaf(n) && need(n, j) ==> j == varid(n) && M(n) != NInf)

func SPN.Max(n, I) (r)
  uses maxp normal
  requires wfNet() && node(n) && maxOK(I)
  decreases rank(n)
  ensures isLeaf(n) ==> r == lmax(n, in(varid(n), I), I[varid(n)])
  ensures r == M(n)
func Sum.Max(self, I) (r)
  loop 1
    invariant max == mxw(cs(self), $k)
  endloop
func Product.Max(self, I) (r)
  loop 1
    invariant v == smf(cm(self), $k)
  endloop
func Node.Max(self, I) (r)
  nosmoke

func SPN.ArgMax(n, I) (m, r)
  uses maxp normal
  requires wfNet() && node(n) && maxOK(I) && okIn() && okLf(I) && needIn()
  decreases rank(n)
  ensures isLeaf(n) ==> r == lmax(n, in(varid(n), I), I[varid(n)]) && (forall j int :: {in(j, m)} in(j, m) ==> j == varid(n) && m[j] == ite(in(j, I), I[j], lbest(n))) && (r != NInf ==> in(varid(n), m))
  ensures r == M(n)
  ensures (forall j int :: {in(j, m)} in(j, m) ==> ok(n, j, m[j]))
  ensures (forall j int :: {in(j, m)} {need(n, j)} need(n, j) ==> in(j, m))
  ensures fresh(m)
func Sum.ArgMax(self, I) (m, r)
  ghostvar b int
  loop 1
    init b = 0 - 1
    step b = ite(mch == ch(self)[$k-1] && cs(self)[$k-1] == max, $k-1, b)
    invariant max == mxw(cs(self), $k)
    invariant $k == 0 ==> mch == nil
    invariant $k > 0 ==> 0 <= b && b < $k && mch == ch(self)[b] && cs(self)[b] == max
  endloop
func Product.ArgMax(self, I) (m, r)
  loop 1
    invariant v == smf(cm(self), $k) && fresh(argmax)
    invariant forall j int :: {in(j, argmax)} in(j, argmax) ==> ok(self, j, argmax[j])
    invariant forall j int :: {need(self, j)} need(self, j) && wi(self, j) < $k ==> in(j, argmax)
  endloop
  loop 2
    invariant forall j int :: {in(j, argmax)} in(j, argmax) ==> ok(self, j, argmax[j])
    invariant forall j int :: {in(j, argmax)} pre(in(j, argmax)) || $done[j] ==> in(j, argmax)
  endloop
func Node.ArgMax(self, I) (m, r)
  nosmoke

// V: visited nodes. Everything visited is a node and has been put on the queue; what was taken off is closed
// under the children that a MAP tree has
def mapQ(q View, V map[SPN]bool) bool = (forall n ref :: {in(n, V)} vis(V, n) ==> node(n) && at(q, 0, n)) && (forall p int :: {q.arr[p]} 0 <= p && p < q.hi ==> vis(V, q.arr[p])) && 0 <= q.lo && q.lo <= q.hi
def mapCl(V map[SPN]bool, D [ref]int, n ref) bool = (isSum(n) ==> attains(n, D[n]) && vis(V, ch(n)[D[n]])) && (isProd(n) ==> (forall i int :: {ch(n)[i]} 0 <= i && i < len(ch(n)) ==> vis(V, ch(n)[i])))
// a leaf of the MAP tree is in the state
def mapLf(st VarSet, n ref) bool = isLeaf(n) && M(n) != NInf ==> in(varid(n), st)
def maxed(s *Storer, k int, v View, lo int, hi int) bool = forall p int :: {v.arr[p]} lo <= p && p < hi ==> sHas(s, k, v.arr[p], 0) && sVal(s, k, v.arr[p], 0) == M(v.arr[p])
def okFrom(S ref, n ref) bool = forall j int, x int :: {ok(n, j, x)} ok(n, j, x) ==> ok(S, j, x)

func StoreMAP(S, I, tk, storage) (r, k, st)
  uses maxp normal
  requires wfNet() && node(S) && maxOK(I) && okIn() && okLf(I) && needIn()
  requires storOK(storage) && (tk < 0 || in(tk, storage.tables))
  modifies storage.tickets, map(storage.tables), all("md.spn.SPN:map[int]float64"), all("mv.spn.SPN:map[int]float64"), all("md.int:float64"), all("mv.int:float64")
  ghostvar W View
  ghostvar Z View
  ghostvar D [ref]int
  ghostvar E [int]int
  aftercall sys.RandIntn D = store(D, s, E[$res0])
  callassert spn.SPN.ArgMax dom(I) == old(dom(I)) && mval(I) == old(mval(I))
  ensures r == S && storOK(storage) && in(k, storage.tables) && (tk >= 0 ==> k == tk) && (tk < 0 ==> !old(in(k, storage.tables)))
  ensures at(W, W.lo, S) && sorted(W, W.lo) && maxed(storage, k, W, W.lo, W.hi)
  ensures forall q int, T SPN, j int :: {sHas(storage, q, T, j)} {sVal(storage, q, T, j)} q != k || j != 0 || !node(T) ==> sHas(storage, q, T, j) == old(sHas(storage, q, T, j)) && sVal(storage, q, T, j) == old(sVal(storage, q, T, j))
  ensures forall q int :: {in(q, storage.tables)} q != k ==> in(q, storage.tables) == old(in(q, storage.tables))
  // the state: fresh, made of the leaves of a MAP tree only, and of all of them
  ensures fresh(st) && (forall j int :: {in(j, st)} in(j, st) ==> ok(S, j, st[j]))
  ensures at(Z, 0, S) && (forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi ==> mapLf(st, Z.arr[p]) && (isSum(Z.arr[p]) ==> attains(Z.arr[p], D[Z.arr[p]]) && at(Z, 0, ch(Z.arr[p])[D[Z.arr[p]]])) && (isProd(Z.arr[p]) ==> (forall i int :: {ch(Z.arr[p])[i]} 0 <= i && i < len(ch(Z.arr[p])) ==> at(Z, 0, ch(Z.arr[p])[i]))))
  loop 1
    init W = T.view
    invariant W == pre(T.view) && taken(T.view, W)
    invariant storOK(storage) && in(tk, storage.tables) && tab == storage.tables[tk]
    invariant maxed(storage, tk, W, W.lo, T.view.lo)
    invariant forall m map[int]float64 :: {dom(m)} {mval(m)} {mown[m]} m != nil && !freshpre(m) ==> mown[m] == pre(mown[m]) && (mown[m] != tab ==> dom(m) == pre(dom(m)) && mval(m) == pre(mval(m)))
    invariant forall T SPN, j int :: {tHas(tab, T, j)} {tVal(tab, T, j)} j != 0 || !node(T) ==> tHas(tab, T, j) == pre(tHas(tab, T, j)) && tVal(tab, T, j) == pre(tVal(tab, T, j))
  endloop
  loop 2
    invariant mv == mxw(cs(s), $k)
  endloop
  loop 3
    invariant v == smf(cm(s), $k)
  endloop
  loop 4
    init Z = Q.view
    step Z = Q.view
    invariant Z == Q.view && mapQ(Q.view, V) && vis(V, S) && Q.view.lo == $k
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> okFrom(S, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> attains(Q.view.arr[p], D[Q.view.arr[p]])
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> vis(V, ch(Q.view.arr[p])[D[Q.view.arr[p]]])
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isProd(Q.view.arr[p]) ==> (forall i int :: {ch(Q.view.arr[p])[i]} 0 <= i && i < len(ch(Q.view.arr[p])) ==> vis(V, ch(Q.view.arr[p])[i]))
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k ==> mapLf(M, Q.view.arr[p])
    invariant forall j int :: {in(j, M)} in(j, M) ==> ok(S, j, M[j])
  endloop
  // the state of a leaf
  loop 5
    invariant forall j int :: {in(j, M)} in(j, M) ==> ok(S, j, M[j])
    invariant forall j int :: {in(j, M)} pre(in(j, M)) || $done[j] ==> in(j, M)
  endloop
  loop 6
    invariant m == mxw(cs(s), $k) && ($k > 0 ==> len(mv) > 0) && (arr(mv) == 0 || fresh(mv))
    // E: the position of the tied children
    step E = ite(len(mv) > 0 && mv[len(mv)-1] == ch(s)[$k-1] && cs(s)[$k-1] == m, store(E, len(mv)-1, $k-1), E)
    invariant forall j int :: {mv[j]} {E[j]} 0 <= j && j < len(mv) ==> 0 <= E[j] && E[j] < $k && mv[j] == ch(s)[E[j]] && cs(s)[E[j]] == m
  endloop
  loop 7
    invariant mapQ(Q.view, V) && vis(V, S) && Q.view.lo == pre(Q.view).lo && Q.view.hi >= pre(Q.view).hi
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> okFrom(S, n)
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < pre(Q.view).hi ==> Q.view.arr[p] == pre(Q.view).arr[p]
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i])
  endloop

def maxIs(V map[SPN]float64, v View, lo int, hi int) bool = forall p int :: {v.arr[p]} lo <= p && p < hi ==> in(v.arr[p], V) && V[v.arr[p]] == M(v.arr[p])
func TraceMAP(S, I) (r)
  uses maxp normal
  requires wfNet() && node(S) && maxOK(I)
  ghostvar W View
  ghostvar Z View
  ghostvar D [ref]int
  aftercall sys.RandIntn D = store(D, s, mi[$res0])
  // only sums have an entry, and it is a child that attains the maximum
  ensures fresh(r) && (forall n ref :: {in(n, r)} {r[n]} in(n, r) ==> node(n) && isSum(n) && attains(n, r[n]))
  // Z: the nodes of a MAP trace from the root; every sum in it has an entry unless its child was already in the trace
  ensures at(Z, 0, S) && (forall p int :: {Z.arr[p]} 0 <= p && p < Z.hi ==> (isSum(Z.arr[p]) ==> attains(Z.arr[p], D[Z.arr[p]]) && at(Z, 0, ch(Z.arr[p])[D[Z.arr[p]]])) && (isProd(Z.arr[p]) ==> (forall i int :: {ch(Z.arr[p])[i]} 0 <= i && i < len(ch(Z.arr[p])) ==> at(Z, 0, ch(Z.arr[p])[i]))))
  ensures isSum(S) ==> in(S, r)
  loop 1
    init W = T.view
    invariant W == pre(T.view) && taken(T.view, W)
    invariant maxIs(tab, W, W.lo, T.view.lo)
  endloop
  loop 2
    invariant mv == mxw(cs(s), $k)
  endloop
  loop 3
    invariant v == smf(cm(s), $k)
  endloop
  loop 4
    init Z = Q.view
    step Z = Q.view
    invariant Z == Q.view && mapQ(Q.view, V) && vis(V, S) && Q.view.lo == $k && Q.view.arr[0] == S
    invariant $k == 0 ==> (forall n ref :: {in(n, V)} vis(V, n) ==> n == S)
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> attains(Q.view.arr[p], D[Q.view.arr[p]])
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isSum(Q.view.arr[p]) ==> vis(V, ch(Q.view.arr[p])[D[Q.view.arr[p]]])
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < $k && isProd(Q.view.arr[p]) ==> (forall i int :: {ch(Q.view.arr[p])[i]} 0 <= i && i < len(ch(Q.view.arr[p])) ==> vis(V, ch(Q.view.arr[p])[i]))
    invariant forall n ref :: {in(n, P)} {P[n]} in(n, P) ==> node(n) && isSum(n) && attains(n, P[n])
    invariant $k > 0 && isSum(S) ==> in(S, P)
  endloop
  loop 5
    invariant m == mxw(cs(s), $k) && ($k > 0 ==> len(mi) > 0) && (arr(mi) == 0 || fresh(mi))
    invariant forall j int :: {mi[j]} 0 <= j && j < len(mi) ==> 0 <= mi[j] && mi[j] < $k && cs(s)[mi[j]] == m
  endloop
  loop 6
    invariant mapQ(Q.view, V) && vis(V, S) && Q.view.lo == pre(Q.view).lo && Q.view.hi >= pre(Q.view).hi
    invariant forall n ref :: {in(n, V)} vis(V, n) ==> at(W, W.lo, n)
    invariant forall n ref :: {in(n, V)} pre(vis(V, n)) ==> vis(V, n)
    invariant forall p int :: {Q.view.arr[p]} 0 <= p && p < pre(Q.view).hi ==> Q.view.arr[p] == pre(Q.view).arr[p]
    invariant forall i int :: {ch(s)[i]} 0 <= i && i < $k ==> vis(V, ch(s)[i])
  endloop

property C03 spn.SPN.Max spn.SPN.ArgMax spn.StoreMAP spn.TraceMAP
