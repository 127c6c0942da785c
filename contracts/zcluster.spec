package metrics
theory dist
uses reals
// squared Euclidean and Hamming distance of the first n coordinates
rec sqd(a [int]F, b [int]F, n int) Real = ite(n <= 0, 0.0, sqd(a, b, n-1) + (rv(a[n-1]) - rv(b[n-1])) * (rv(a[n-1]) - rv(b[n-1])))
rec isqd(a [int]int, b [int]int, n int) Real = ite(n <= 0, 0.0, isqd(a, b, n-1) + real(a[n-1] - b[n-1]) * real(a[n-1] - b[n-1]))
rec hamm(a [int]int, b [int]int, n int) int = ite(n <= 0, 0, hamm(a, b, n-1) + ite(a[n-1] != b[n-1], 1, 0))
lemma sqd_pos(a [int]F, b [int]F, n int) induct n
  ensures sqd(a, b, n) >= 0.0
  trigger sqd(a, b, n)
lemma isqd_pos(a [int]int, b [int]int, n int) induct n
  ensures isqd(a, b, n) >= 0.0
  trigger isqd(a, b, n)
// the same points as integers and as floats
lemma sqd_int(a [int]F, b [int]F, c [int]int, d [int]int, n int) induct n
  requires forall i int :: {a[i]} {b[i]} 0 <= i && i < n ==> a[i] == F(real(c[i])) && b[i] == F(real(d[i]))
  ensures sqd(a, b, n) == isqd(c, d, n)
lemma hamm_le(a [int]int, b [int]int, n int) induct n
  requires n >= 0
  ensures 0 <= hamm(a, b, n) && hamm(a, b, n) <= n
  trigger hamm(a, b, n)
endtheory
def finrow(p []float64) bool = forall i int :: {p[i]} 0 <= i && i < len(p) ==> fin(p[i])
func EuclideanF(p, q) (r)
  uses dist
  requires len(q) >= len(p) && finrow(p) && finrow(q)
  ensures r == F(rsqrt(sqd(elems(p), elems(q), len(p))))
  loop 1
    invariant s == F(sqd(elems(p), elems(q), $k))
  endloop
func Euclidean(p1, p2) (r)
  uses dist
  requires len(p2) >= len(p1)
  ensures r == F(rsqrt(isqd(elems(p1), elems(p2), len(p1))))
  loop 1
    invariant s == F(isqd(elems(p1), elems(p2), $k))
  endloop
func Hamming(p1, p2) (r)
  uses dist
  requires len(p2) >= len(p1)
  ensures r == hamm(elems(p1), elems(p2), len(p1))
  loop 1
    invariant 0 <= i && i <= n && s == hamm(elems(p1), elems(p2), i)
  endloop
func HammingF(p1, p2) (r)
  uses dist
  requires len(p2) >= len(p1)
  ensures r == F(real(hamm(elems(p1), elems(p2), len(p1))))
  loop 1
    invariant 0 <= i && i <= n && s == F(real(hamm(elems(p1), elems(p2), i)))
  endloop

package cluster
func copyMatrixF(A) (D)
  ensures fresh(D) && len(D) == len(A)
  ensures forall i int :: {D[i]} 0 <= i && i < len(A) ==> fresh(D[i]) && len(D[i]) == len(A[i])
  ensures forall i int, j int :: {D[i][j]} 0 <= i && i < len(A) && 0 <= j && j < len(A[i]) ==> D[i][j] == F(real(A[i][j]))
  loop 1
    invariant fresh(D) && len(D) == len(A)
    invariant forall i int :: {D[i]} 0 <= i && i < $k ==> fresh(D[i]) && len(D[i]) == len(A[i])
    invariant forall i int, j int :: {D[i][j]} 0 <= i && i < $k && 0 <= j && j < len(A[i]) ==> D[i][j] == F(real(A[i][j]))
  endloop
  loop 2
    invariant fresh(J) && len(J) == len(I) && (forall q int :: {J[q]} 0 <= q && q < $k ==> J[q] == F(real(I[q])))
  endloop
// instance i is element pos[i] of cluster G[i], and element e of cluster g is instance ins[g][e]
func guessToData(k, G, M, Sc) (C)
  requires k >= 0 && len(M) >= len(G) && (forall i int :: {G[i]} 0 <= i && i < len(G) ==> 0 <= G[i] && G[i] < k)
  requires forall i int :: {M[i]} 0 <= i && i < len(G) ==> len(M[i]) == len(M[0])
  requires forall i int, j int :: {M[i][j]} 0 <= i && i < len(G) && 0 <= j && j < len(M[0]) ==> fin(M[i][j])
  requires forall t int, u int :: {Sc[t], Sc[u]} 0 <= t && t < u && u < len(M[0]) ==> Sc[t] != Sc[u]
  requires forall t int :: {Sc[t]} {in(t, Sc)} 0 <= t && t < len(M[0]) ==> in(t, Sc)
  ghostvar pos [int]int
  ghostvar ins [int][int]int
  ghostvar wt [int]int
  ensures fresh(C) && len(C) == k
  ensures forall i int :: {pos[i]} {G[i]} 0 <= i && i < len(G) ==> 0 <= pos[i] && pos[i] < len(C[G[i]]) && ins[G[i]][pos[i]] == i
  ensures forall g int, e int :: {C[g][e]} {ins[g][e]} 0 <= g && g < k && 0 <= e && e < len(C[g]) ==> 0 <= ins[g][e] && ins[g][e] < len(G) && G[ins[g][e]] == g && pos[ins[g][e]] == e && C[g][e] != nil && fresh(C[g][e])
  ensures forall g int, e int, t int :: {C[g][e], Sc[t]} 0 <= g && g < k && 0 <= e && e < len(C[g]) && 0 <= t && t < len(M[0]) ==> in(Sc[t], C[g][e]) && C[g][e][Sc[t]] == trunc(rv(M[ins[g][e]][t]))
  ensures forall g int, e int, v int :: {in(v, C[g][e])} 0 <= g && g < k && 0 <= e && e < len(C[g]) && in(v, C[g][e]) ==> 0 <= wt[v] && wt[v] < len(M[0]) && Sc[wt[v]] == v
  loop 1
    step pos = store(pos, $k-1, len(C[G[$k-1]]) - 1)
    step ins = store(ins, G[$k-1], store(ins[G[$k-1]], len(C[G[$k-1]]) - 1, $k-1))
    invariant fresh(C) && len(C) == k
    invariant forall g int :: {C[g]} 0 <= g && g < k ==> arr(C[g]) == 0 || fresh(C[g])
    invariant forall g int, h int :: {C[g], C[h]} 0 <= g && g < h && h < k ==> arr(C[g]) == 0 || arr(C[g]) != arr(C[h])
    invariant forall i int :: {pos[i]} {G[i]} 0 <= i && i < $k ==> 0 <= pos[i] && pos[i] < len(C[G[i]]) && ins[G[i]][pos[i]] == i
    invariant forall g int, e int :: {C[g][e]} {ins[g][e]} 0 <= g && g < k && 0 <= e && e < len(C[g]) ==> 0 <= ins[g][e] && ins[g][e] < $k && G[ins[g][e]] == g && pos[ins[g][e]] == e && C[g][e] != nil && fresh(C[g][e])
    invariant forall g int, e int, t int :: {C[g][e], Sc[t]} 0 <= g && g < k && 0 <= e && e < len(C[g]) && 0 <= t && t < len(M[0]) ==> in(Sc[t], C[g][e]) && C[g][e][Sc[t]] == trunc(rv(M[ins[g][e]][t]))
    invariant forall g int, e int, v int :: {in(v, C[g][e])} 0 <= g && g < k && 0 <= e && e < len(C[g]) && in(v, C[g][e]) ==> 0 <= wt[v] && wt[v] < len(M[0]) && Sc[wt[v]] == v
    invariant forall t int :: {Sc[t]} $k > 0 && 0 <= t && t < len(M[0]) ==> wt[Sc[t]] == t
  endloop
  loop 2
    step wt = store(wt, Sc[$k-1], $k-1)
    invariant fresh(I) && I != nil
    invariant forall t int :: {Sc[t]} 0 <= t && t < $k ==> in(Sc[t], I) && I[Sc[t]] == trunc(rv(M[i][t])) && wt[Sc[t]] == t
    invariant forall t int :: {Sc[t]} i > 0 && 0 <= t && t < len(M[0]) ==> wt[Sc[t]] == t
    invariant forall v int :: {in(v, I)} in(v, I) ==> 0 <= wt[v] && wt[v] < $k && Sc[wt[v]] == v
    invariant forall g int, e int, v int :: {in(v, C[g][e])} 0 <= g && g < k && 0 <= e && e < len(C[g]) && in(v, C[g][e]) ==> 0 <= wt[v] && wt[v] < len(M[0]) && Sc[wt[v]] == v
  endloop
package kmeans
func New() (r)
  trusted kmeans: a configuration; no effect
func Kmeans.PartitionPoints(m, d, k) (r, err)
  trusted kmeans: with 1 <= k <= n and points of the same dimension, assigns each of the n points a cluster in [0, k); does not change the points
  allocs e.int
  requires 1 <= k && k <= len(d)
  ensures err == nil && fresh(r) && len(r) == len(d) && (forall i int :: {r[i]} 0 <= i && i < len(r) ==> 0 <= r[i] && r[i] < k)
package cluster
func kmeansMuesli(k, M) (G)
  requires 1 <= k && k <= len(M)
  ensures fresh(G) && len(G) == len(M) && (forall i int :: {G[i]} 0 <= i && i < len(M) ==> 0 <= G[i] && G[i] < k)
  loop 1
    invariant fresh(O) && len(O) == len(M)
  endloop
func KMeansI(k, D) (G)
  requires 1 <= k && k <= len(D)
  ensures fresh(G) && len(G) == len(D) && (forall i int :: {G[i]} 0 <= i && i < len(D) ==> 0 <= G[i] && G[i] < k)
// mem[i]: the cluster of instance i, which is the only one that has key i
def clIn(G []map[int][]int, k int, mem [int]int, n int) bool = (forall i int :: {mem[i]} 0 <= i && i < n ==> 0 <= mem[i] && mem[i] < k && in(i, G[mem[i]])) && (forall g int, i int :: {in(i, G[g])} 0 <= g && g < k && in(i, G[g]) ==> 0 <= i && i < n && mem[i] == g)
def clRow(G []map[int][]int, k int, D [][]int, n int) bool = forall g int, i int :: {in(i, G[g])} {G[g][i]} 0 <= g && g < k && in(i, G[g]) && i < n ==> fresh(G[g][i]) && len(G[g][i]) == len(D[i])
def clVal(G []map[int][]int, k int, D [][]int, n int) bool = forall g int, i int, l int :: {G[g][i][l]} 0 <= g && g < k && in(i, G[g]) && i < n && 0 <= l && l < len(D[i]) ==> G[g][i][l] == D[i][l]
def clMaps(G []map[int][]int, k int) bool = fresh(G) && len(G) == k && (forall g int :: {G[g]} 0 <= g && g < k ==> G[g] != nil && fresh(G[g])) && (forall g int, h int :: {G[g], G[h]} 0 <= g && g < h && h < k ==> G[g] != G[h])
func KMeansMuesli(k, M, sc) (G)
  requires 1 <= k && k <= len(M) && sc == nil
  ghostvar mem [int]int
  aftercall kmeans.Kmeans.PartitionPoints mem = elems($res0)
  ensures clMaps(G, k) && clIn(G, k, mem, len(M))
  ensures clRow(G, k, M, len(M)) && clVal(G, k, M, len(M))
  loop 1
    invariant fresh(O) && len(O) == len(D)
  endloop
  loop 2
    invariant fresh(G) && len(G) == k
    invariant forall g int :: {G[g]} 0 <= g && g < $k ==> G[g] != nil && fresh(G[g]) && (forall i int :: {in(i, G[g])} !in(i, G[g]))
    invariant forall g int, h int :: {G[g], G[h]} 0 <= g && g < h && h < $k ==> G[g] != G[h]
  endloop
  loop 3
    invariant clMaps(G, k)
    invariant clIn(G, k, mem, $k)
    invariant clRow(G, k, M, $k)
    invariant clVal(G, k, M, $k)
  endloop
  loop 4
    invariant clMaps(G, k)
    invariant clIn(G, k, mem, i + 1)
    invariant clRow(G, k, M, i + 1)
    invariant clVal(G, k, M, i)
    invariant forall q int :: {G[c][u][q]} 0 <= q && q < $k ==> G[c][u][q] == M[i][q]
  endloop
func KMeans(k, data) (G)
  requires 1 <= k && k <= len(data)
  ghostvar mem [int]int
  aftercall cluster.KMeansMuesli mem = $gv_mem
  ensures clMaps(G, k) && clIn(G, k, mem, len(data))
  ensures clRow(G, k, data, len(data)) && clVal(G, k, data, len(data))
def clInF(G []map[int][]float64, k int, mem [int]int, n int) bool = (forall i int :: {mem[i]} 0 <= i && i < n ==> 0 <= mem[i] && mem[i] < k && in(i, G[mem[i]])) && (forall g int, i int :: {in(i, G[g])} 0 <= g && g < k && in(i, G[g]) ==> 0 <= i && i < n && mem[i] == g)
def clRowF(G []map[int][]float64, k int, D [][]float64, n int) bool = forall g int, i int :: {in(i, G[g])} {G[g][i]} 0 <= g && g < k && in(i, G[g]) && i < n ==> fresh(G[g][i]) && len(G[g][i]) == len(D[i])
def clValF(G []map[int][]float64, k int, D [][]float64, n int) bool = forall g int, i int, l int :: {G[g][i][l]} 0 <= g && g < k && in(i, G[g]) && i < n && 0 <= l && l < len(D[i]) ==> G[g][i][l] == D[i][l]
def clMapsF(G []map[int][]float64, k int) bool = fresh(G) && len(G) == k && (forall g int :: {G[g]} 0 <= g && g < k ==> G[g] != nil && fresh(G[g])) && (forall g int, h int :: {G[g], G[h]} 0 <= g && g < h && h < k ==> G[g] != G[h])
func KMeansMuesliF(k, D, sc) (G)
  requires 1 <= k && k <= len(D) && sc == nil
  ghostvar mem [int]int
  aftercall kmeans.Kmeans.PartitionPoints mem = elems($res0)
  ensures clMapsF(G, k) && clInF(G, k, mem, len(D))
  ensures clRowF(G, k, D, len(D)) && clValF(G, k, D, len(D))
  loop 1
    invariant fresh(O) && len(O) == len(D)
  endloop
  loop 2
    invariant fresh(G) && len(G) == k
    invariant forall g int :: {G[g]} 0 <= g && g < $k ==> G[g] != nil && fresh(G[g]) && (forall i int :: {in(i, G[g])} !in(i, G[g]))
    invariant forall g int, h int :: {G[g], G[h]} 0 <= g && g < h && h < $k ==> G[g] != G[h]
  endloop
  loop 3
    invariant clMapsF(G, k)
    invariant clInF(G, k, mem, $k)
    invariant clRowF(G, k, D, $k)
    invariant clValF(G, k, D, $k)
  endloop
func KMeansF(k, D, sc) (G)
  requires 1 <= k && k <= len(D)
  ghostvar mem [int]int
  aftercall cluster.KMeansMuesliF mem = $gv_mem
  ensures clMapsF(G, k) && clInF(G, k, mem, len(D))
  ensures clRowF(G, k, D, len(D)) && clValF(G, k, D, len(D))
// the columns are the variables of the data: column t is variable S[t]
def colsOK(data spn.Dataset, S [int]int, inv [int]int) bool = (forall t int :: {S[t]} 0 <= t && t < len(data[0]) ==> in(S[t], data[0]) && inv[S[t]] == t) && (forall v int :: {inv[v]} {in(v, data[0])} in(v, data[0]) ==> 0 <= inv[v] && inv[v] < len(data[0]) && S[inv[v]] == v)
func KMeansData(k, data) (G)
  requires 1 <= k && k <= len(data) && consistent(data)
  ghostvar mem [int]int
  ghostvar S [int]int
  ghostvar inv [int]int
  aftercall cluster.KMeansMuesli mem = $gv_mem
  aftercall learn.DataToMatrix S = mval($res1)
  aftercall learn.DataToMatrix inv = $gv_inv
  ensures clMaps(G, k) && clIn(G, k, mem, len(data)) && colsOK(data, S, inv)
  ensures forall g int, i int :: {in(i, G[g])} {G[g][i]} 0 <= g && g < k && in(i, G[g]) ==> len(G[g][i]) == len(data[0])
  ensures forall g int, i int, t int :: {G[g][i][t]} 0 <= g && g < k && in(i, G[g]) && 0 <= t && t < len(data[0]) ==> G[g][i][t] == data[i][S[t]]
func KMeansFData(k, data) (G)
  requires 1 <= k && k <= len(data) && consistent(data)
  ghostvar mem [int]int
  ghostvar S [int]int
  ghostvar inv [int]int
  aftercall cluster.KMeansMuesliF mem = $gv_mem
  aftercall learn.DataToMatrixF S = mval($res1)
  aftercall learn.DataToMatrixF inv = $gv_inv
  ensures clMapsF(G, k) && clInF(G, k, mem, len(data)) && colsOK(data, S, inv)
  ensures forall g int, i int :: {in(i, G[g])} {G[g][i]} 0 <= g && g < k && in(i, G[g]) ==> len(G[g][i]) == len(data[0])
  ensures forall g int, i int, t int :: {G[g][i][t]} 0 <= g && g < k && in(i, G[g]) && 0 <= t && t < len(data[0]) ==> G[g][i][t] == F(real(data[i][S[t]]))
func KMeansDataI(k, data) (C)
  requires 1 <= k && k <= len(data) && consistent(data)
  ghostvar inv [int]int
  ghostvar mem [int]int
  ghostvar pos [int]int
  ghostvar ins [int][int]int
  aftercall learn.DataToMatrixF inv = $gv_inv
  aftercall cluster.guessToData mem = elems(G)
  aftercall cluster.guessToData pos = $gv_pos
  aftercall cluster.guessToData ins = $gv_ins
  afterassert cluster.guessToData forall i int, t int :: {D[i][t]} 0 <= i && i < len(data) && 0 <= t && t < len(data[0]) ==> trunc(rv(D[i][t])) == data[i][Sc[t]]
  afterassert cluster.guessToData forall g int, e int, t int :: {$res0[g][e], Sc[t]} 0 <= g && g < len($res0) && 0 <= e && e < len($res0[g]) && 0 <= t && t < len(data[0]) ==> $res0[g][e][Sc[t]] == data[ins[g][e]][Sc[t]]
  ensures len(C) == k
  ensures forall i int :: {mem[i]} {pos[i]} 0 <= i && i < len(data) ==> 0 <= mem[i] && mem[i] < len(C) && 0 <= pos[i] && pos[i] < len(C[mem[i]]) && ins[mem[i]][pos[i]] == i
  ensures forall g int, e int :: {C[g][e]} {ins[g][e]} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) ==> 0 <= ins[g][e] && ins[g][e] < len(data) && mem[ins[g][e]] == g && pos[ins[g][e]] == e
  ensures forall g int, e int, v int :: {in(v, C[g][e])} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) ==> in(v, C[g][e]) == in(v, data[0])
  ensures forall g int, e int, v int :: {C[g][e][v]} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) && in(v, data[0]) ==> C[g][e][v] == data[ins[g][e]][v]
// near: at distance at most eps; chained: any equivalence that contains it
theory dbscan
uses dist
fun near(i int, j int) bool
fun chained(i int, j int) bool
// whether a caller follows which instances may be joined
fun track() bool
fun zerob() [int]bool
  axiom forall i int :: {zerob()[i]} !zerob()[i]
assume @box_int forall x int :: {box("int", x)} unbox("int", box("int", x)) == x
endtheory
def rowsOK(D [][]float64) bool = forall i int :: {D[i]} 0 <= i && i < len(D) ==> len(D[i]) == len(D[0]) && finrow(D[i])
def nearOK(D [][]float64, eps F) bool = forall i int, j int :: {near(i, j)} 0 <= i && i < len(D) && 0 <= j && j < len(D) ==> near(i, j) == (F(rsqrt(sqd(elems(D[i]), elems(D[j]), len(D[i])))) <= eps)
def chainOK(n int) bool = (forall i int :: {chained(i, i)} chained(i, i)) && (forall i int, j int :: {chained(i, j)} chained(i, j) ==> chained(j, i)) && (forall i int, j int, k int :: {chained(i, j), chained(j, k)} chained(i, j) && chained(j, k) ==> chained(i, k)) && (forall i int, j int :: {near(i, j)} 0 <= i && i < n && 0 <= j && j < n && near(i, j) ==> chained(i, j))
def dnodeOK(N [int]ref, idx [ref]int, k int) bool = forall a int :: {N[a]} 0 <= a && a < k ==> ufn[N[a]] && fresh(N[a]) && idx[N[a]] == a && fld("utils.UFNode.varid", N[a]) == a
def dsound(N [int]ref, n int) bool = forall a int, b int :: {cls[N[a]], cls[N[b]]} 0 <= a && a < n && 0 <= b && b < n && cls[N[a]] == cls[N[b]] ==> chained(a, b)
def qInts(v View, n int) bool = vsize(v) >= 0 && (forall p int :: {v.arr[p]} v.lo <= p && p < v.hi ==> typeis(v.arr[p], "int") && 0 <= unbox("int", v.arr[p]) && unbox("int", v.arr[p]) < n && v.arr[p] == box("int", unbox("int", v.arr[p])))
def inq(v View, i int) bool = v.lo <= v.idx[box("int", i)] && v.idx[box("int", i)] < v.hi && v.arr[v.idx[box("int", i)]] == box("int", i)
// with mp <= 1: whoever was processed is with all its neighbours
def joined(N [int]ref, n int, proc [int]bool) bool = forall a int, b int :: {near(a, b)} 0 <= a && a < n && 0 <= b && b < n && proc[a] && near(a, b) ==> cls[N[a]] == cls[N[b]]
// everybody was processed, waits, or will be found by the next search for unvisited instances
def cover(v View, vst []int, vindex int, proc [int]bool, n int) bool = forall i int :: {proc[i]} {vst[i]} 0 <= i && i < n ==> proc[i] || inq(v, i) || (vst[i] == 0 && vindex <= i)
func dbscanInternal(data, eps, mp) (r)
  uses dbscan, ufops
  requires len(data) >= 1 && rowsOK(data) && ufOK()
  requires track() ==> nearOK(data, eps) && chainOK(len(data))
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.ufn"), all("gh.kid"), all("gh.nk")
  ghostvar idx [ref]int
  ghostvar N [int]ref
  ghostvar proc [int]bool
  ghostvar cur int
  aftercall utils.MakeSet idx = store(idx, $res0, i)
  aftercall utils.MakeSet N = store(N, i, $res0)
  ensures ufOK() && len(r) == len(data)
  ensures setsOK(r, N, len(data))
  ensures dnodeOK(N, idx, len(data))
  ensures newOK(N, idx, len(data))
  ensures track() ==> dsound(N, len(data))
  ensures track() && mp <= 1 ==> (forall a int, b int :: {near(a, b)} 0 <= a && a < len(data) && 0 <= b && b < len(data) && near(a, b) ==> cls[N[a]] == cls[N[b]])
  loop 1
    invariant len(dmatrix) == n && fresh(dmatrix) && 0 <= i && i <= n
    invariant forall a int :: {dmatrix[a]} 0 <= a && a < i ==> len(dmatrix[a]) == n && fresh(dmatrix[a])
    invariant track() ==> (forall a int, b int :: {dmatrix[a][b]} 0 <= a && a < i && 0 <= b && b < n ==> (dmatrix[a][b] <= eps) == near(a, b))
  endloop
  loop 2
    invariant len(dmatrix) == n && fresh(dmatrix) && 0 <= i && i < n && 0 <= j && j <= n
    invariant forall a int :: {dmatrix[a]} 0 <= a && a <= i ==> len(dmatrix[a]) == n && fresh(dmatrix[a])
    invariant forall a int :: {dmatrix[a]} 0 <= a && a < i ==> arr(dmatrix[a]) != arr(dmatrix[i])
    invariant track() ==> (forall a int, b int :: {dmatrix[a][b]} 0 <= a && 0 <= b && (a < i && b < n || a == i && b < j) ==> (dmatrix[a][b] <= eps) == near(a, b))
  endloop
  loop 3
    invariant ufOK()
    invariant 0 <= i && i <= n
    invariant setsOK(rgs, N, i)
    invariant dnodeOK(N, idx, i)
    invariant newOK(N, idx, i)
    invariant sepOK(rgs)
    invariant forall a int :: {N[a]} 0 <= a && a < i ==> cls[N[a]] == N[a]
  endloop
  loop 4
    init proc = zerob()
    step proc = store(proc, cur, true)
    invariant ufOK()
    invariant len(rgs) == n && setsOK(rgs, N, n)
    invariant dnodeOK(N, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(rgs)
    invariant track() ==> dsound(N, n)
    invariant qInts(queue.view, n) && len(vst) == n && fresh(vst) && vindex >= 0
    invariant track() && mp <= 1 ==> joined(N, n, proc)
    invariant cover(queue.view, vst, vindex, proc, n)
    invariant vsize(queue.view) == 0 ==> (forall i int :: {vst[i]} vindex <= i && i < n ==> vst[i] != 0)
  endloop
  loop 5
    init cur = p
    invariant ufOK()
    invariant 0 <= i && i <= n && setsOK(rgs, N, n)
    invariant dnodeOK(N, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(rgs)
    invariant track() ==> dsound(N, n)
    invariant qInts(queue.view, n)
    invariant qInts(nbh.view, n)
    invariant track() ==> (forall q int :: {nbh.view.arr[q]} nbh.view.lo <= q && q < nbh.view.hi ==> near(p, unbox("int", nbh.view.arr[q])))
    invariant cur == p
    invariant track() ==> (forall t int :: {near(p, t)} 0 <= t && t < i && near(p, t) ==> t == p || cls[N[t]] == cls[N[p]] || inq(nbh.view, t))
  endloop
  loop 6
    invariant ufOK()
    invariant setsOK(rgs, N, n)
    invariant dnodeOK(N, idx, n)
    invariant newOK(N, idx, n)
    invariant sepOK(rgs)
    invariant track() ==> dsound(N, n)
    invariant qInts(queue.view, n)
    invariant qInts(nbh.view, n)
    invariant track() ==> (forall q int :: {nbh.view.arr[q]} nbh.view.lo <= q && q < nbh.view.hi ==> near(p, unbox("int", nbh.view.arr[q])))
    invariant cur == p && len(vst) == n && fresh(vst) && (forall i int :: {proc[i]} {vst[i]} 0 <= i && i < n ==> i == p || proc[i] || inq(queue.view, i) || (vst[i] == 0 && vindex <= i))
    invariant track() && mp <= 1 ==> joined(N, n, proc)
    invariant track() ==> (forall t int :: {near(p, t)} 0 <= t && t < n && near(p, t) ==> cls[N[t]] == cls[N[p]] || inq(nbh.view, t))
  endloop
  loop 7
    invariant 0 <= i && qInts(queue.view, n) && vindex >= 0
    invariant vindex >= pre(vindex) && pre(vindex) <= i
    invariant forall t int :: {vst[t]} pre(vindex) <= t && t < i && t < n && vst[t] == 0 ==> inq(queue.view, t)
    invariant vsize(queue.view) == 0 ==> vindex == pre(vindex)
  endloop
// classes listed so far: gk[x] numbers the class of the representative x, RT lists the representatives
func DBSCANData(data, eps, mp) (C)
  uses dbscan, ufops
  requires consistent(data) && ufOK() && !track()
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.ufn"), all("gh.kid"), all("gh.nk")
  ghostvar N [int]ref
  ghostvar idx [ref]int
  ghostvar inv [int]int
  ghostvar gk [ref]int
  ghostvar KN [int]ref
  ghostvar KX [ref]int
  ghostvar mem [int]int
  ghostvar pos [int]int
  ghostvar ins [int][int]int
  aftercall learn.DataToMatrixF inv = $gv_inv
  aftercall cluster.dbscanInternal N = $gv_N
  aftercall cluster.dbscanInternal idx = $gv_idx
  aftercall utils.UFVarids KN = $gv_N
  aftercall utils.UFVarids KX = $gv_ix
  aftercall utils.UFVarids gk = store(gk, $arg0, k)
  aftercall cluster.guessToData mem = elems(G)
  aftercall cluster.guessToData pos = $gv_pos
  aftercall cluster.guessToData ins = $gv_ins
  afterassert cluster.guessToData forall i int, t int :: {M[i][t]} 0 <= i && i < len(data) && 0 <= t && t < len(data[0]) ==> trunc(rv(M[i][t])) == data[i][Sc[t]]
  afterassert cluster.guessToData forall g int, e int, t int :: {$res0[g][e], Sc[t]} 0 <= g && g < len($res0) && 0 <= e && e < len($res0[g]) && 0 <= t && t < len(data[0]) ==> $res0[g][e][Sc[t]] == data[ins[g][e]][Sc[t]]
  callassert cluster.guessToData forall a int :: {G[a]} 0 <= a && a < len(data) ==> 0 <= G[a] && G[a] < k
  ensures forall i int :: {mem[i]} {pos[i]} 0 <= i && i < len(data) ==> 0 <= mem[i] && mem[i] < len(C) && 0 <= pos[i] && pos[i] < len(C[mem[i]]) && ins[mem[i]][pos[i]] == i
  ensures forall g int, e int :: {C[g][e]} {ins[g][e]} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) ==> 0 <= ins[g][e] && ins[g][e] < len(data) && mem[ins[g][e]] == g && pos[ins[g][e]] == e
  ensures forall g int, e int, v int :: {in(v, C[g][e])} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) ==> in(v, C[g][e]) == in(v, data[0])
  ensures forall g int, e int, v int :: {C[g][e][v]} 0 <= g && g < len(C) && 0 <= e && e < len(C[g]) && in(v, data[0]) ==> C[g][e][v] == data[ins[g][e]][v]
  loop 1
    invariant fresh(G) && len(G) == len(M) && k >= 0
    invariant forall a int :: {N[a]} {G[a]} 0 <= a && a < len(M) && idx[cls[N[a]]] < $k ==> G[a] == gk[cls[N[a]]] && 0 <= G[a] && G[a] < k
  endloop
  loop 2
    invariant fresh(G) && len(G) == len(M) && k >= 0 && gk[u] == k
    invariant forall a int :: {N[a]} {G[a]} 0 <= a && a < len(M) && idx[cls[N[a]]] < $k1 ==> G[a] == gk[cls[N[a]]] && 0 <= G[a] && G[a] < k
    invariant forall a int :: {N[a]} {G[a]} 0 <= a && a < len(M) && cls[N[a]] == u && KX[N[a]] < $k ==> G[a] == k
  endloop
def nearI(D [][]int, eps F) bool = forall i int, j int :: {near(i, j)} 0 <= i && i < len(D) && 0 <= j && j < len(D) ==> near(i, j) == (F(rsqrt(isqd(elems(D[i]), elems(D[j]), len(D[i])))) <= eps)
// the members of the classes of representatives before i are in the cluster that gk numbers
def dbFwd(C []map[int][]int, N [int]ref, idx [ref]int, gk [ref]int, RT [int]ref, n int, i int) bool = forall a int :: {N[a]} 0 <= a && a < n && idx[cls[N[a]]] < i ==> 0 <= gk[cls[N[a]]] && gk[cls[N[a]]] < len(C) && in(a, C[gk[cls[N[a]]]]) && RT[gk[cls[N[a]]]] == cls[N[a]]
def dbBwd(C []map[int][]int, N [int]ref, idx [ref]int, gk [ref]int, n int, i int, k int) bool = forall g int, a int :: {in(a, C[g])} 0 <= g && g < k && in(a, C[g]) ==> 0 <= a && a < n && idx[cls[N[a]]] < i && gk[cls[N[a]]] == g
func DBSCAN(data, eps, mp) (C)
  uses dbscan, ufops
  requires len(data) >= 1 && ufOK() && (forall i int :: {data[i]} 0 <= i && i < len(data) ==> len(data[i]) == len(data[0]))
  requires track() ==> nearI(data, eps) && chainOK(len(data))
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.ufn"), all("gh.kid"), all("gh.nk")
  ghostvar N [int]ref
  ghostvar idx [ref]int
  ghostvar gk [ref]int
  ghostvar RT [int]ref
  ghostvar KN [int]ref
  ghostvar KX [ref]int
  ghostvar mem [int]int
  aftercall cluster.dbscanInternal N = $gv_N
  aftercall cluster.dbscanInternal idx = $gv_idx
  aftercall utils.UFVarids KN = $gv_N
  aftercall utils.UFVarids KX = $gv_ix
  aftercall utils.UFVarids gk = store(gk, $arg0, k)
  aftercall utils.UFVarids RT = store(RT, k, $arg0)
  callassert cluster.dbscanInternal track() ==> nearOK(D, eps)
  ensures len(C) > 0 ==> clMaps(C, len(C))
  // gk[cls[N[a]]] is the cluster of instance a
  ensures forall a int :: {N[a]} 0 <= a && a < len(data) ==> 0 <= gk[cls[N[a]]] && gk[cls[N[a]]] < len(C) && in(a, C[gk[cls[N[a]]]])
  ensures forall g int, a int :: {in(a, C[g])} 0 <= g && g < len(C) && in(a, C[g]) ==> 0 <= a && a < len(data) && gk[cls[N[a]]] == g
  ensures clRow(C, len(C), data, len(data)) && clVal(C, len(C), data, len(data))
  // joined only by chains of near instances
  ensures track() ==> (forall g int, a int, b int :: {in(a, C[g]), in(b, C[g])} 0 <= g && g < len(C) && in(a, C[g]) && in(b, C[g]) ==> chained(a, b))
  // with at most one neighbour required: near instances are always joined
  ensures track() && mp <= 1 ==> (forall a int, b int :: {near(a, b)} 0 <= a && a < len(data) && 0 <= b && b < len(data) && near(a, b) ==> gk[cls[N[a]]] == gk[cls[N[b]]])
  loop 1
    invariant 0 <= i && i <= n && k >= 0 && len(clusters) == k && (k == 0 || fresh(clusters)) && (forall g int :: {clusters[g]} 0 <= g && g < k ==> clusters[g] != nil && fresh(clusters[g]))
    invariant forall g int, h int :: {clusters[g], clusters[h]} 0 <= g && g < h && h < k ==> clusters[g] != clusters[h]
    invariant dbFwd(clusters, N, idx, gk, RT, n, i)
    invariant dbBwd(clusters, N, idx, gk, n, i, k)
    invariant clRow(clusters, k, data, n)
    invariant clVal(clusters, k, data, n)
  endloop
  loop 2
    invariant 0 <= j && j <= nchs && len(clusters) == k + 1 && fresh(clusters) && (forall g int :: {clusters[g]} 0 <= g && g <= k ==> clusters[g] != nil && fresh(clusters[g]))
    invariant forall g int, h int :: {clusters[g], clusters[h]} 0 <= g && g < h && h <= k ==> clusters[g] != clusters[h]
    invariant dbFwd(clusters, N, idx, gk, RT, n, i)
    invariant dbBwd(clusters, N, idx, gk, n, i, k)
    invariant forall a int :: {N[a]} 0 <= a && a < n && cls[N[a]] == rgs[i] && KX[N[a]] < j ==> in(a, clusters[k])
    invariant forall a int :: {in(a, clusters[k])} in(a, clusters[k]) ==> 0 <= a && a < n && cls[N[a]] == rgs[i]
    invariant clRow(clusters, k + 1, data, n)
    invariant clVal(clusters, k, data, n)
    invariant forall a int :: {in(a, clusters[k])} in(a, clusters[k]) ==> (forall l int :: {clusters[k][a][l]} {data[a][l]} 0 <= l && l < len(data[a]) ==> clusters[k][a][l] == data[a][l])
  endloop
property C14 metrics.EuclideanF metrics.Euclidean metrics.Hamming metrics.HammingF cluster.copyMatrixF cluster.guessToData cluster.kmeansMuesli cluster.KMeansI cluster.KMeansMuesli cluster.KMeans cluster.KMeansData
property C14 cluster.KMeansMuesliF cluster.KMeansF cluster.KMeansFData cluster.KMeansDataI cluster.dbscanInternal cluster.DBSCAN cluster.DBSCANData lemma:sqd_int lemma:hamm_le
