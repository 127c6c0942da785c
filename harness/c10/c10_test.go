package c10

import (
	"sort"
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func scopes(n *lib.Net) []map[int]bool {
	s := make([]map[int]bool, len(n.Ms))
	for i, m := range n.Ms {
		s[i] = map[int]bool{}
		if len(m.Ch) == 0 {
			s[i][m.Var] = true
		}
		for _, c := range m.Ch {
			for v := range s[c] {
				s[i][v] = true
			}
		}
	}
	return s
}

func list(m map[int]bool) []int {
	var l []int
	for v := range m {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}

func eq(a map[int]bool, l []int) bool {
	if len(a) != len(l) {
		return false
	}
	seen := map[int]bool{}
	for _, v := range l {
		if !a[v] || seen[v] {
			return false
		}
		seen[v] = true
	}
	return true
}

func valid(n *lib.Net, s []map[int]bool) (bool, bool) {
	c, d := true, true
	for i := range n.Reach() {
		m := n.Ms[i]
		t := 0
		for _, k := range m.Ch {
			t += len(s[k])
			if m.Kind == "sum" && len(s[k]) != len(s[i]) {
				c = false
			}
		}
		if m.Kind == "product" && t != len(s[i]) {
			d = false
		}
	}
	return c, d
}

func check(n *lib.Net, order int) string {
	s := scopes(n)
	c, d := valid(n, s)
	var e string
	sc := func() {
		r := spn.ComputeScope(n.R())
		if !eq(s[n.Root], r) {
			e = vh.Sf("scope of the root is %v instead of %v", r, list(s[n.Root]))
			return
		}
		for i := range n.Reach() {
			if x := n.Ns[i].Sc(); !eq(s[i], x) {
				e = vh.Sf("scope of n%d is %v instead of %v", i, x, list(s[i]))
				return
			}
		}
	}
	co := func() {
		if g := spn.Complete(n.R()); g != c {
			e = vh.Sf("Complete returned %v", g)
		}
	}
	de := func() {
		if g := spn.Decomposable(n.R()); g != d {
			e = vh.Sf("Decomposable returned %v", g)
		}
	}
	fs := []func(){sc, co, de}
	for i := 0; i < 3 && e == ""; i++ {
		fs[(order+i)%3]()
	}
	if e == "" && order%2 == 0 {
		fs[(order/2)%3]()
	}
	if e == "" {
		e = n.Unchanged()
	}
	return e
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(12000, 300000); it++ {
			n := lib.Gen(r, lib.Opt{LeafRoot: true, Unnorm: true, Valid: it%4 != 3})
			if it%4 == 1 {
				// one edge of a valid network is moved, or one is added
				g := &lib.Net{NVars: n.NVars, Card: n.Card}
				p := r.Intn(len(n.Ms))
				for i, m := range n.Ms {
					if i == p && len(m.Ch) > 0 {
						ch := append([]int{}, m.Ch...)
						if r.Intn(2) == 0 {
							ch[r.Intn(len(ch))] = r.Intn(i)
						} else {
							ch = append(ch, r.Intn(i))
							if m.Kind == "sum" {
								m.W = append(append([]float64{}, m.W...), 0.5)
							}
						}
						m.Ch = ch
					}
					g.Add(m)
				}
				n = g
			}
			n.Root = len(n.Ms) - 1
			if it%5 == 4 {
				n.Root = r.Intn(len(n.Ms))
			}
			ord := r.Intn(6)
			h.Case(len(n.Reach()) > 2, n.String(), func() string { return check(n, ord) })
			// a node gains a child after scopes have been computed
			if it%3 == 0 {
				p, c := r.Intn(len(n.Ms)), -1
				if p > 0 && len(n.Ms[p].Ch) > 0 {
					c = r.Intn(p)
					if r.Intn(2) == 0 {
						n.Ns[n.Root].Sc()
					}
					n.Ms[p].Ch = append(append([]int{}, n.Ms[p].Ch...), c)
					if z, ok := n.Ns[p].(*spn.Sum); ok {
						z.AddChildW(n.Ns[c], 0.5)
						n.Ms[p].W = append(append([]float64{}, n.Ms[p].W...), 0.5)
					} else {
						n.Ns[p].AddChild(n.Ns[c])
					}
					h.Case(len(n.Reach()) > 2, vh.Sf("scopes computed, then n%d added below n%d: %s", c, p, n), func() string { return check(n, ord+2) })
				}
			}
			// the same network from another root, with scopes already computed
			if it%6 == 0 {
				n.Root = r.Intn(len(n.Ms))
				h.Case(len(n.Reach()) > 2, "again: "+n.String(), func() string { return check(n, ord+1) })
			}
		}
	})
}
