package spn
// ghost ownership: mown[m], mkey[m] are the table and the node an inner map belongs to;
// town[t], tkey[t] are the storer and the ticket a table belongs to.
type StorerTable
  ghost mown ref
  ghost mkey ref
  ghost town ref
  ghost tkey int

def tabOK(t StorerTable) bool = t != nil && (forall S SPN :: {t[S]} {in(S, t)} in(S, t) ==> t[S] != nil && mown[t[S]] == t && mkey[t[S]] == S)
def storOK(s *Storer) bool = s != nil && s.tables != nil && s.tickets >= 0 && (forall k int :: {s.tables[k]} {in(k, s.tables)} in(k, s.tables) ==> 0 <= k && k < s.tickets && tabOK(s.tables[k]) && town[s.tables[k]] == s && tkey[s.tables[k]] == k)
// an entry of a table: present, and its value
def tHas(t StorerTable, S SPN, l int) bool = in(S, t) && in(l, t[S])
def tVal(t StorerTable, S SPN, l int) F = ite(tHas(t, S, l), t[S][l], F(0.0))
def sHas(s *Storer, k int, S SPN, l int) bool = in(k, s.tables) && tHas(s.tables[k], S, l)
def sVal(s *Storer, k int, S SPN, l int) F = ite(sHas(s, k, S, l), tVal(s.tables[k], S, l), F(0.0))

func NewStorer() (r)
  ensures fresh(r) && storOK(r) && r.tickets == 0
  ensures forall k int :: !in(k, r.tables)

func Storer.NewTicket(s) (r)
  requires storOK(s)
  modifies s.tickets, map(s.tables)
  ghost town[s.tables[r]] = s
  ghost tkey[s.tables[r]] = r
  ensures storOK(s)
  ensures !old(in(r, s.tables))
  ensures in(r, s.tables) && fresh(s.tables[r])
  ensures forall S SPN :: !in(S, s.tables[r])
  ensures forall k int :: {in(k, s.tables)} k != r ==> in(k, s.tables) == old(in(k, s.tables)) && s.tables[k] == old(s.tables[k])
  ensures r == old(s.tickets) && s.tickets == old(s.tickets) + 1

func Storer.Table(s, k) (t, ok)
  requires storOK(s)
  ensures ok == in(k, s.tables) && (ok ==> t == s.tables[k] && tabOK(t)) && (!ok ==> t == nil)

func Storer.Value(s, k, S) (m, ok)
  requires storOK(s)
  ensures ok == (in(k, s.tables) && in(S, s.tables[k]))
  ensures ok ==> m == s.tables[k][S]
func StorerTable.Value(t, S) (m, ok)
  requires tabOK(t)
  ensures ok == in(S, t) && (ok ==> m == t[S])
func Storer.Entry(s, k, S, l) (v, ok)
  requires storOK(s)
  ensures ok == sHas(s, k, S, l) && v == sVal(s, k, S, l)
func StorerTable.Entry(t, S, l) (v, ok)
  requires tabOK(t)
  ensures ok == tHas(t, S, l) && v == tVal(t, S, l)
func Storer.Single(s, k, S) (v, ok)
  requires storOK(s)
  ensures ok == sHas(s, k, S, 0) && v == sVal(s, k, S, 0)
func StorerTable.Single(t, S) (v, ok)
  requires tabOK(t)
  ensures ok == tHas(t, S, 0) && v == tVal(t, S, 0)

func StorerTable.Store(t, S, l, e) (ok)
  requires tabOK(t)
  modifies map(t), map(ite(in(S, t), t[S], nil))
  ghost mown[t[S]] = t
  ghost mkey[t[S]] = S
  ensures ok && tabOK(t)
  ensures tHas(t, S, l) && tVal(t, S, l) == e
  ensures forall T SPN, j int :: {tHas(t, T, j)} {tVal(t, T, j)} T != S || j != l ==> tHas(t, T, j) == old(tHas(t, T, j)) && tVal(t, T, j) == old(tVal(t, T, j))
  ensures forall T SPN :: {in(T, t)} in(T, t) == (T == S || old(in(T, t)))
  ensures forall T SPN :: {t[T]} T != S || old(in(S, t)) ==> t[T] == old(t[T])
  ensures !old(in(S, t)) ==> fresh(t[S])
func StorerTable.StoreSingle(t, S, e) (ok)
  requires tabOK(t)
  modifies map(t), map(ite(in(S, t), t[S], nil))
  ghost mown[t[S]] = t
  ghost mkey[t[S]] = S
  ensures ok && tabOK(t)
  ensures tHas(t, S, 0) && tVal(t, S, 0) == e
  ensures forall T SPN, j int :: {tHas(t, T, j)} {tVal(t, T, j)} T != S || j != 0 ==> tHas(t, T, j) == old(tHas(t, T, j)) && tVal(t, T, j) == old(tVal(t, T, j))
  ensures forall T SPN :: {in(T, t)} in(T, t) == (T == S || old(in(T, t)))
  ensures forall T SPN :: {t[T]} T != S || old(in(S, t)) ==> t[T] == old(t[T])
  ensures !old(in(S, t)) ==> fresh(t[S])
func Storer.Store(s, k, S, l, e) (ok)
  requires storOK(s)
  modifies map(ite(in(k, s.tables), s.tables[k], nil)), map(ite(in(k, s.tables) && in(S, s.tables[k]), s.tables[k][S], nil))
  ensures storOK(s)
  ensures ok == old(in(k, s.tables))
  ensures ok ==> sHas(s, k, S, l) && sVal(s, k, S, l) == e
  ensures forall q int, T SPN, j int :: {sHas(s, q, T, j)} {sVal(s, q, T, j)} !ok || q != k || T != S || j != l ==> sHas(s, q, T, j) == old(sHas(s, q, T, j)) && sVal(s, q, T, j) == old(sVal(s, q, T, j))
func Storer.StoreSingle(s, k, S, e) (ok)
  requires storOK(s)
  modifies map(ite(in(k, s.tables), s.tables[k], nil)), map(ite(in(k, s.tables) && in(S, s.tables[k]), s.tables[k][S], nil))
  ensures storOK(s)
  ensures ok == old(in(k, s.tables))
  ensures ok ==> sHas(s, k, S, 0) && sVal(s, k, S, 0) == e
  ensures forall q int, T SPN, j int :: {sHas(s, q, T, j)} {sVal(s, q, T, j)} !ok || q != k || T != S || j != 0 ==> sHas(s, q, T, j) == old(sHas(s, q, T, j)) && sVal(s, q, T, j) == old(sVal(s, q, T, j))
func Storer.ExistsSPN(s, k, S) (r)
  requires storOK(s)
  ensures r == (in(k, s.tables) && in(S, s.tables[k]))
func StorerTable.ExistsSPN(t, S) (r)
  requires tabOK(t)
  ensures r == in(S, t)
func Storer.Exists(s, k, S, i) (r)
  requires storOK(s)
  ensures r == sHas(s, k, S, i)
func StorerTable.Exists(t, S, i) (r)
  requires tabOK(t)
  ensures r == tHas(t, S, i)
func Storer.Delete(s, k)
  requires storOK(s)
  modifies map(s.tables)
  ensures storOK(s)
  ensures !in(k, s.tables)
  ensures forall q int, T SPN, j int :: {sHas(s, q, T, j)} {sVal(s, q, T, j)} q != k ==> sHas(s, q, T, j) == old(sHas(s, q, T, j)) && sVal(s, q, T, j) == old(sVal(s, q, T, j))
  ensures forall q int :: {in(q, s.tables)} q != k ==> in(q, s.tables) == old(in(q, s.tables))
func Storer.Reset(s, k) (r)
  requires storOK(s)
  requires 0 <= k && k < s.tickets
  modifies map(s.tables)
  ghost town[s.tables[k]] = s
  ghost tkey[s.tables[k]] = k
  ensures storOK(s)
  ensures r == k && in(k, s.tables) && fresh(s.tables[k])
  ensures forall T SPN :: {in(T, s.tables[k])} !in(T, s.tables[k])
  ensures forall q int :: {in(q, s.tables)} q != k ==> in(q, s.tables) == old(in(q, s.tables)) && s.tables[q] == old(s.tables[q])
func Storer.ResetTickets(s, K)
  requires storOK(s)
  requires forall i int :: {K[i]} 0 <= i && i < len(K) ==> 0 <= K[i] && K[i] < s.tickets
  modifies map(s.tables)
  ghostvar R [int]bool
  ghostvar W [int]int
  ensures storOK(s)
  ensures forall i int :: {K[i]} 0 <= i && i < len(K) ==> in(K[i], s.tables)
  ensures forall i int, T SPN :: {in(T, s.tables[K[i]])} 0 <= i && i < len(K) ==> !in(T, s.tables[K[i]])
  ensures forall q int :: {in(q, s.tables)} (forall i int :: {K[i]} 0 <= i && i < len(K) ==> K[i] != q) ==> in(q, s.tables) == old(in(q, s.tables)) && s.tables[q] == old(s.tables[q])
  loop 1
    // R: the tickets reset so far; W[q]: where q occurs in K
    init R = constarr("[int]bool", false)
    init W = constarr("[int]int", 0)
    ghost town[s.tables[K[$k-1]]] = s
    ghost tkey[s.tables[K[$k-1]]] = K[$k-1]
    step R = store(R, K[$k-1], true)
    step W = store(W, K[$k-1], $k-1)
    invariant storOK(s) && s.tables == old(s.tables) && s.tickets == old(s.tickets)
    invariant forall i int :: {K[i]} 0 <= i && i < $k ==> R[K[i]]
    invariant forall q int :: {R[q]} R[q] ==> 0 <= W[q] && W[q] < $k && K[W[q]] == q
    invariant forall q int :: {R[q]} {in(q, s.tables)} R[q] ==> in(q, s.tables) && fresh(s.tables[q])
    invariant forall q int :: {R[q]} {in(q, s.tables)} !R[q] ==> in(q, s.tables) == old(in(q, s.tables)) && s.tables[q] == old(s.tables[q])
    invariant forall q int :: {s.tables[q]} R[q] ==> (forall T SPN :: {in(T, s.tables[q])} !in(T, s.tables[q]))
func Storer.Purge(s)
  requires storOK(s)
  modifies map(s.tables), s.tickets
  ensures storOK(s)
  ensures forall q int :: {in(q, s.tables)} !in(q, s.tables)
  ensures s.tickets == 0
  loop 1
    invariant s.tables == old(s.tables)
    invariant forall q int :: {in(q, s.tables)} in(q, s.tables) ==> old(in(q, s.tables)) && !$done[q]

property C05 spn.NewStorer spn.Storer.NewTicket spn.Storer.Table spn.Storer.Value spn.StorerTable.Value spn.Storer.Entry spn.StorerTable.Entry spn.Storer.Single spn.StorerTable.Single
property C05 spn.StorerTable.Store spn.StorerTable.StoreSingle spn.Storer.Store spn.Storer.StoreSingle spn.Storer.ExistsSPN spn.StorerTable.ExistsSPN spn.Storer.Exists spn.StorerTable.Exists
property C05 spn.Storer.Delete spn.Storer.Reset spn.Storer.ResetTickets spn.Storer.Purge
