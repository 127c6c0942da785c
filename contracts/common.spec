theory views
fun vrev(v View) View
  axiom forall v View :: {vrev(v)} vrev(v).lo == v.lo && vrev(v).hi == v.hi
  axiom forall v View, i int :: {vrev(v).arr[i]} v.lo <= i && i < v.hi ==> vrev(v).arr[i] == v.arr[v.lo + v.hi - 1 - i]
fun vempty() View
  axiom vempty().lo == 0 && vempty().hi == 0
endtheory

package sys
func Free()
  trusted returns unused memory to the operating system (runtime/debug.FreeOSMemory); no effect on program values

package common
// view: the sequence of elements held, positions lo..hi-1 of arr; idx[e] is the position at which e was last inserted
def snoc(v View, e ref) View = mkview(store(v.arr, v.hi, e), v.lo, v.hi + 1, store(v.idx, e, v.hi))
def vsize(v View) int = v.hi - v.lo
def vget(v View, i int) ref = v.arr[v.lo + i]

type Queue
  ghost view View
  ghost owner ref
  zero view = vempty()
  hidden f.common.Queue.data, f.common.Queue.cap, e.interface{}
  rep len(self.data) == vsize(self.view) && (forall p int :: {self.view.arr[p]} self.view.lo <= p && p < self.view.hi ==> self.data[p - self.view.lo] == self.view.arr[p]) && (arr(self.data) == 0 || owner[arr(self.data)] == self)

type Stack
  ghost view View
  ghost owner ref
  zero view = vempty()
  hidden f.common.Stack.data, f.common.Stack.cap
  rep len(self.data) == vsize(self.view) && (forall p int :: {self.view.arr[p]} self.view.lo <= p && p < self.view.hi ==> self.data[p - self.view.lo] == self.view.arr[p]) && (arr(self.data) == 0 || owner[arr(self.data)] == self)

// ---- interface ----
func Collection.Give(c, e)
  modifies c.view
  ensures c.view == snoc(old(c.view), e)
func Collection.Take(c) (r)
  requires vsize(c.view) > 0
  modifies c.view
  ensures typeis(c, "*common.Queue") ==> r == vget(old(c.view), 0) && c.view == mkview(old(c.view).arr, old(c.view).lo + 1, old(c.view).hi, old(c.view).idx)
  ensures typeis(c, "*common.Stack") ==> r == vget(old(c.view), vsize(old(c.view)) - 1) && c.view == mkview(old(c.view).arr, old(c.view).lo, old(c.view).hi - 1, old(c.view).idx)
func Collection.Peek(c) (r)
  requires vsize(c.view) > 0
  ensures typeis(c, "*common.Queue") ==> r == vget(c.view, 0)
  ensures typeis(c, "*common.Stack") ==> r == vget(c.view, vsize(c.view) - 1)
func Collection.Get(c, i) (r)
  requires 0 <= i && i < vsize(c.view)
  ensures r == vget(c.view, i)
func Collection.Size(c) (r)
  ensures r == vsize(c.view) && r >= 0
func Collection.Empty(c) (r)
  ensures r == (vsize(c.view) == 0) && vsize(c.view) >= 0
func Collection.Shrink(c)
func Collection.Reset(c)
  modifies c.view
  ensures vsize(c.view) == 0
func Collection.Invert(c) (r)
  modifies c.view
  ensures r == c
  ensures vsize(c.view) == vsize(old(c.view))
  ensures forall i int :: 0 <= i && i < vsize(c.view) ==> vget(c.view, i) == vget(old(c.view), vsize(c.view) - 1 - i)

// ---- Queue ----
func Queue.Enqueue(q, e)
  repmethod
  modifies q.view
  ghost owner[arr(q.data)] = q
  ghost q.view = snoc(old(q.view), e)
  ensures q.view == snoc(old(q.view), e)
func Queue.Dequeue(q) (r)
  repmethod
  requires vsize(q.view) > 0
  modifies q.view
  ghost q.view = mkview(old(q.view).arr, old(q.view).lo + 1, old(q.view).hi, old(q.view).idx)
  ensures r == vget(old(q.view), 0)
  ensures q.view == mkview(old(q.view).arr, old(q.view).lo + 1, old(q.view).hi, old(q.view).idx)
func Queue.DequeueBack(q) (r)
  repmethod
  requires vsize(q.view) > 0
  modifies q.view
  ghost q.view = mkview(old(q.view).arr, old(q.view).lo, old(q.view).hi - 1, old(q.view).idx)
  ensures r == vget(old(q.view), vsize(old(q.view)) - 1)
  ensures q.view == mkview(old(q.view).arr, old(q.view).lo, old(q.view).hi - 1, old(q.view).idx)
func Queue.Peek(q) (r)
  repmethod
func Queue.Get(q, i) (r)
  repmethod
func Queue.Size(q) (r)
  repmethod
func Queue.Empty(q) (r)
  repmethod
func Queue.Give(q, e)
  repmethod
  ghost owner[arr(q.data)] = q
  ghost q.view = snoc(old(q.view), e)
func Queue.Take(q) (r)
  repmethod
  ghost q.view = mkview(old(q.view).arr, old(q.view).lo + 1, old(q.view).hi, old(q.view).idx)
func Queue.Shrink(q)
  repmethod
func Queue.Reset(q)
  repmethod
  uses views
  ghost q.view = vempty()
func Queue.Invert(q) (r)
  repmethod
  uses views
  ghost owner[arr(q.data)] = q
  ghost q.view = vrev(old(q.view))
  loop 1
    invariant forall j int :: {l[j]} n - $k <= j && j < n ==> l[j] == q.data[n - 1 - j]

// ---- Stack ----
func Stack.Push(q, e)
  repmethod
  modifies q.view
  ghost owner[arr(q.data)] = q
  ghost q.view = snoc(old(q.view), e)
  ensures q.view == snoc(old(q.view), e)
func Stack.Pop(q) (r)
  repmethod
  requires vsize(q.view) > 0
  modifies q.view
  ghost q.view = mkview(old(q.view).arr, old(q.view).lo, old(q.view).hi - 1, old(q.view).idx)
  ensures r == vget(old(q.view), vsize(old(q.view)) - 1)
  ensures q.view == mkview(old(q.view).arr, old(q.view).lo, old(q.view).hi - 1, old(q.view).idx)
func Stack.Peek(q) (r)
  repmethod
func Stack.Get(q, i) (r)
  repmethod
func Stack.Size(q) (r)
  repmethod
func Stack.Empty(q) (r)
  repmethod
func Stack.Give(q, e)
  repmethod
  ghost owner[arr(q.data)] = q
  ghost q.view = snoc(old(q.view), e)
func Stack.Take(q) (r)
  repmethod
  ghost q.view = mkview(old(q.view).arr, old(q.view).lo, old(q.view).hi - 1, old(q.view).idx)
func Stack.Shrink(q)
  repmethod
func Stack.Reset(q)
  repmethod
  uses views
  ghost q.view = vempty()
func Stack.Invert(q) (r)
  repmethod
  uses views
  ghost owner[arr(q.data)] = q
  ghost q.view = vrev(old(q.view))
  loop 1
    invariant forall j int :: {l[j]} n - $k <= j && j < n ==> l[j] == q.data[n - 1 - j]

property C06 rep:common.Queue rep:common.Stack common.Queue.Enqueue common.Queue.Dequeue common.Queue.DequeueBack common.Stack.Push common.Stack.Pop
property C06 common.Collection.Give common.Collection.Take common.Collection.Peek common.Collection.Get common.Collection.Size common.Collection.Empty common.Collection.Shrink common.Collection.Reset common.Collection.Invert
