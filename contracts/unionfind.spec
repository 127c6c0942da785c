package utils
// ufn: the node was made by MakeSet; cls: its representative; des[x]: the nodes listed below x (x included);
// kid[x], nk[x]: the list of children; wc[x][n]: through which child; chown[a]: the node whose child list the array a holds
type UFNode
  ghost ufn bool
  ghost cls ref
  ghost des [ref]bool
  ghost wc [ref]int
  ghost chown ref
  ghost kid [int]ref
  ghost nk int
theory ufops
fun relab(c [ref]ref, x ref, y ref) [ref]ref
  axiom forall c [ref]ref, x ref, y ref, n ref :: {relab(c, x, y)[n]} relab(c, x, y)[n] == ite(c[n] == x, y, c[n])
fun orset(a [ref]bool, b [ref]bool) [ref]bool
  axiom forall a [ref]bool, b [ref]bool, n ref :: {orset(a, b)[n]} orset(a, b)[n] == (a[n] || b[n])
fun via(w [ref]int, b [ref]bool, k int) [ref]int
  axiom forall w [ref]int, b [ref]bool, k int, n ref :: {via(w, b, k)[n]} via(w, b, k)[n] == ite(b[n], k, w[n])
fun single(x ref) [ref]bool
  axiom forall x ref, n ref :: {single(x)[n]} single(x)[n] == (n == x)
// concatenation of listings
fun catn(a [int]ref, l int, b [int]ref) [int]ref
  axiom forall a [int]ref, l int, b [int]ref, i int :: {catn(a, l, b)[i]} catn(a, l, b)[i] == ite(i < l, a[i], b[i - l])
fun cati(a [ref]int, d [ref]bool, l int, b [ref]int) [ref]int
  axiom forall a [ref]int, d [ref]bool, l int, b [ref]int, n ref :: {cati(a, d, l, b)[n]} cati(a, d, l, b)[n] == ite(d[n], l + b[n], a[n])
endtheory
def cl(n ref) []*UFNode = fld("utils.UFNode.Ch", n)
def rk(n ref) int = fld("utils.UFNode.rank", n)
// forest of representatives
def up1(n *UFNode) bool = n != nil && allocated(n) && n.rank >= 0 && ufn[n.Pa] && ufn[cls[n]] && cls[cls[n]] == cls[n] && cls[n.Pa] == cls[n] && (n.Pa == n) == (cls[n] == n) && (n.Pa != n ==> n.rank < n.Pa.rank) && (cls[n] != n ==> n.rank < rk(cls[n]))
// lists of children
def lk1(n *UFNode) bool = nk[n] == len(n.Ch) && (arr(n.Ch) == 0 || chown[arr(n.Ch)] == n)
def lk2(n *UFNode, i int) bool = 0 <= i && i < len(n.Ch) ==> n.Ch[i] == kid[n][i]
def dn0(n *UFNode) bool = des[n][n] && nk[n] >= 0
def dn1(n *UFNode, i int) bool = 0 <= i && i < nk[n] ==> ufn[kid[n][i]] && rk(kid[n][i]) < n.rank && cls[kid[n][i]] != kid[n][i]
def dn2(x *UFNode, n ref) bool = des[x][n] ==> ufn[n] && (n == x || (0 <= wc[x][n] && wc[x][n] < nk[x] && des[kid[x][wc[x][n]]][n]))
def dn3(x *UFNode, i int, n ref) bool = 0 <= i && i < nk[x] && des[kid[x][i]][n] ==> des[x][n] && n != x && wc[x][n] == i
def ufUp() bool = forall n *UFNode :: {ufn[n]} ufn[n] ==> up1(n)
def ufLk() bool = (forall n *UFNode :: {ufn[n]} {n.Ch} ufn[n] ==> lk1(n)) && (forall n *UFNode, i int :: {n.Ch[i]} {kid[n][i]} ufn[n] ==> lk2(n, i))
def ufDn() bool = (forall n *UFNode :: {ufn[n]} ufn[n] ==> dn0(n)) && (forall n *UFNode, i int :: {kid[n][i]} ufn[n] ==> dn1(n, i)) && (forall x *UFNode, n ref :: {des[x][n]} ufn[x] ==> dn2(x, n)) && (forall x *UFNode, i int, n ref :: {kid[x][i], des[kid[x][i]][n]} ufn[x] ==> dn3(x, i, n)) && (forall x *UFNode, n *UFNode :: {des[x][n]} ufn[x] && x.Pa == x ==> des[x][n] == (ufn[n] && cls[n] == x))
def ufOK() bool = ufUp() && ufLk() && ufDn()

func MakeSet(varid) (r)
  uses ufops
  requires ufOK()
  ghost ufn[r] = true
  ghost cls[r] = r
  ghost des[r] = single(r)
  ghost nk[r] = 0
  ensures fresh(r) && ufn[r] && ufOK() && r.varid == varid && cls[r] == r && arr(r.Ch) == 0 && len(r.Ch) == 0
  ensures forall n *UFNode :: {ufn[n]} {cls[n]} n != r ==> ufn[n] == old(ufn[n]) && cls[n] == old(cls[n])

func Find(x) (r)
  uses ufops
  requires ufOK() && ufn[x]
  modifies all("f.utils.UFNode.Pa")
  ensures ufOK() && r == cls[x]

func Union(x, y) (r, w)
  uses ufops
  requires ufOK() && ufn[x] && ufn[y]
  modifies all("f.utils.UFNode.Pa"), all("f.utils.UFNode.Ch"), all("f.utils.UFNode.rank"), elems(cl(cls[x])), elems(cl(cls[y])), all("gh.cls"), all("gh.des"), all("gh.wc"), all("gh.chown"), all("gh.kid"), all("gh.nk")
  ghostvar a ref
  ghostvar b ref
  ghost a = ite(w == 1, old(cls[y]), old(cls[x]))
  ghost b = ite(w == 1, old(cls[x]), old(cls[y]))
  ghost chown[arr(cl(b))] = ite(w < 0, chown[arr(cl(b))], b)
  ghost wc[b] = ite(w < 0, wc[b], via(wc[b], des[a], nk[b]))
  ghost des[b] = ite(w < 0, des[b], orset(des[b], des[a]))
  ghost kid[b] = ite(w < 0, kid[b], store(kid[b], nk[b], a))
  ghost nk[b] = ite(w < 0, nk[b], nk[b] + 1)
  ghost all(cls) = ite(w < 0, ghostmap(cls), relab(ghostmap(cls), a, b))
  ensures forall n *UFNode :: {ufn[n]} ufn[n] ==> n != nil && allocated(n) && n.rank >= 0 && ufn[n.Pa] && ufn[cls[n]] && cls[cls[n]] == cls[n]
  ensures forall n *UFNode :: {ufn[n]} ufn[n] ==> cls[n.Pa] == cls[n] && (n.Pa == n) == (cls[n] == n)
  ensures forall n *UFNode :: {ufn[n]} ufn[n] ==> (n.Pa != n ==> n.rank < n.Pa.rank) && (cls[n] != n ==> n.rank < rk(cls[n]))
  assert forall n *UFNode :: {n.Ch} ufn[n] && n != b ==> n.Ch == old(n.Ch) && n.rank == old(n.rank)
  assert forall n *UFNode :: {nk[n]} {kid[n]} {des[n]} ufn[n] && n != b ==> nk[n] == old(nk[n]) && kid[n] == old(kid[n]) && des[n] == old(des[n]) && wc[n] == old(wc[n])
  assert w > 0 ==> ufn[b] && ufn[a] && nk[b] > 0 && kid[b][nk[b] - 1] == a && rk(a) < rk(b)
  assert forall n *UFNode, i int :: {kid[n][i]} ufn[n] && 0 <= i && i < old(nk[n]) ==> kid[n][i] == old(kid[n][i]) && kid[n][i] != b
  ensures forall n *UFNode :: {ufn[n]} {n.Ch} ufn[n] ==> lk1(n)
  ensures forall n *UFNode, i int :: {n.Ch[i]} {kid[n][i]} ufn[n] ==> lk2(n, i)
  ensures forall n *UFNode :: {ufn[n]} ufn[n] ==> dn0(n)
  ensures forall n *UFNode, i int :: {kid[n][i]} ufn[n] ==> dn1(n, i)
  ensures forall x *UFNode, n ref :: {des[x][n]} ufn[x] ==> dn2(x, n)
  ensures forall x *UFNode, i int, n ref :: {kid[x][i], des[kid[x][i]][n]} ufn[x] ==> dn3(x, i, n)
  ensures forall x *UFNode, n *UFNode :: {des[x][n]} ufn[x] && x.Pa == x ==> des[x][n] == (ufn[n] && cls[n] == x)
  ensures forall n *UFNode :: {n.Ch} ufn[n] ==> arr(n.Ch) == old(arr(n.Ch)) || fresh(n.Ch)
  // already together
  ensures old(cls[x]) == old(cls[y]) ==> r == nil && w == 0 - 1 && (forall n *UFNode :: {cls[n]} cls[n] == old(cls[n]))
  // exactly the two classes are merged; the new representative is that of x (1) or of y (2)
  ensures old(cls[x]) != old(cls[y]) ==> (w == 1 || w == 2) && r == b && r == ite(w == 1, old(cls[x]), old(cls[y])) && cls[x] == r && cls[y] == r
  ensures old(cls[x]) != old(cls[y]) ==> (forall n *UFNode :: {cls[n]} ufn[n] ==> cls[n] == ite(old(cls[n] == cls[x] || cls[n] == cls[y]), r, old(cls[n])))

// the variables of the nodes below x, each once
func UFVarids(x) (r)
  uses ufops
  requires ufOK() && ufn[x]
  decreases x.rank
  ghostvar N [int]ref
  ghostvar ix [ref]int
  ghostvar NN [int]ref
  ghostvar iy [ref]int
  ghostvar L int
  aftercall utils.UFVarids NN = $gv_N
  aftercall utils.UFVarids iy = $gv_ix
  ghost N = ite(len(x.Ch) == 0, store(N, 0, x), N)
  ghost ix = ite(len(x.Ch) == 0, store(ix, x, 0), ix)
  ensures fresh(r) && (forall i int :: {r[i]} {N[i]} 0 <= i && i < len(r) ==> des[x][N[i]] && r[i] == fld("utils.UFNode.varid", N[i]) && ix[N[i]] == i)
  ensures forall n ref :: {des[x][n]} {ix[n]} des[x][n] ==> 0 <= ix[n] && ix[n] < len(r) && N[ix[n]] == n
  loop 1
    init N = store(N, 0, x)
    init ix = store(ix, x, 0)
    init L = len(ch)
    step N = catn(N, L, NN)
    step ix = cati(ix, des[x.Ch[$k-1]], L, iy)
    step L = len(ch)
    invariant L == len(ch) && L > 0 && fresh(ch)
    invariant forall i int :: {ch[i]} {N[i]} 0 <= i && i < len(ch) ==> des[x][N[i]] && ch[i] == fld("utils.UFNode.varid", N[i]) && ix[N[i]] == i && (N[i] == x || wc[x][N[i]] < $k)
    invariant forall n ref :: {des[x][n]} {ix[n]} des[x][n] && (n == x || wc[x][n] < $k) ==> 0 <= ix[n] && ix[n] < len(ch) && N[ix[n]] == n
  endloop
property C12 utils.MakeSet utils.Find utils.Union utils.UFVarids
