package c03

import (
	"math"
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func eq(a, b float64) bool { return vh.Close(a, b) }

func best(m lib.M, e spn.VarSet, x int) bool {
	// x may be the state of leaf m: the observed value, or a value that attains the leaf's maximum
	if v, ok := e[m.Var]; ok {
		return x == v
	}
	switch m.Kind {
	case "ind":
		return x == m.Val
	case "mult":
		return x >= 0 && x < len(m.Pr) && eq(lib.Log(m.Pr[x]), m.LeafMax(e))
	}
	if m.Sigma == 0 {
		return x == int(m.Mu)
	}
	return math.Abs(float64(x)-m.Mu) <= 0.5+1e-9
}

// tree tells whether a maximising tree from node i can explain the state, for valid networks
func tree(n *lib.Net, mv []float64, e, st spn.VarSet, i int, memo map[int]int) bool {
	if k := memo[i]; k != 0 {
		return k == 1
	}
	m := n.Ms[i]
	ok := false
	switch m.Kind {
	case "sum":
		for j, c := range m.Ch {
			if eq(lib.Log(m.W[j])+mv[c], mv[i]) && tree(n, mv, e, st, c, memo) {
				ok = true
				break
			}
		}
	case "product":
		ok = true
		for _, c := range m.Ch {
			if !tree(n, mv, e, st, c, memo) {
				ok = false
				break
			}
		}
	default:
		x, in := st[m.Var]
		ok = in && best(m, e, x)
		if math.IsInf(mv[i], -1) && !in {
			ok = true
		}
	}
	memo[i] = 2
	if ok {
		memo[i] = 1
	}
	return ok
}

// cand collects, over all maximising trees, the leaves that may set a variable
func cand(n *lib.Net, mv []float64, i int, seen map[int]bool) {
	if seen[i] {
		return
	}
	seen[i] = true
	m := n.Ms[i]
	for j, c := range m.Ch {
		if m.Kind == "product" || eq(lib.Log(m.W[j])+mv[c], mv[i]) {
			cand(n, mv, c, seen)
		}
	}
}

func state(what string, n *lib.Net, mv []float64, e, st spn.VarSet, valid bool) string {
	if st == nil {
		return what + " returned no state"
	}
	for k, v := range st {
		if x, ok := e[k]; ok && x != v {
			return vh.Sf("%s: state %v contradicts the evidence", what, st)
		}
	}
	seen := map[int]bool{}
	cand(n, mv, n.Root, seen)
	for k, v := range st {
		ok := false
		for i := range seen {
			if len(n.Ms[i].Ch) == 0 && n.Ms[i].Var == k && best(n.Ms[i], e, v) {
				ok = true
			}
		}
		if !ok {
			return vh.Sf("%s: X%d=%d in the state %v is not the best value of any leaf of a maximising tree", what, k, v, st)
		}
	}
	if valid && !math.IsInf(mv[n.Root], -1) && !tree(n, mv, e, st, n.Root, map[int]int{}) {
		return vh.Sf("%s: state %v does not attain the maximum", what, st)
	}
	return ""
}

func cp(a spn.VarSet) spn.VarSet {
	b := spn.VarSet{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

func check(n *lib.Net, e spn.VarSet, valid bool, mode int) string {
	mv := n.MaxValues(e)
	e0 := cp(e)
	reach := n.Reach()
	for i := range n.Ms {
		if !reach[i] {
			continue
		}
		if g := n.Ns[i].Max(e); !eq(g, mv[i]) {
			return vh.Sf("Max of node %d is %v instead of %v", i, g, mv[i])
		}
	}
	st, g := n.R().ArgMax(e)
	if !eq(g, mv[n.Root]) {
		return vh.Sf("ArgMax returned value %v instead of %v", g, mv[n.Root])
	}
	if s := state("ArgMax", n, mv, e, st, valid); s != "" {
		return s
	}
	sto := spn.NewStorer()
	tk := -1
	if mode > 0 && len(n.Ms)%2 == 0 {
		tk = sto.NewTicket()
	}
	other := sto.NewTicket()
	for i := range n.Ms {
		sto.Store(other, n.Ns[i], 0, 500+float64(i))
	}
	if mode > 0 {
		if tk < 0 {
			tk = sto.NewTicket()
		}
		if mode == 2 {
			for i := range n.Ms {
				sto.Store(tk, n.Ns[i], 0, 3)
			}
		}
	}
	s, k, st2 := spn.StoreMAP(n.R(), e, tk, sto)
	if s != n.R() || (tk >= 0 && k != tk) || k == other {
		return "StoreMAP returned another node or ticket"
	}
	for i := range n.Ms {
		if v, ok := sto.Single(other, n.Ns[i]); !ok || v != 500+float64(i) {
			return "StoreMAP changed another ticket"
		}
		if !reach[i] {
			continue
		}
		if v, ok := sto.Single(k, n.Ns[i]); !ok || !eq(v, mv[i]) {
			return vh.Sf("StoreMAP stored %v (%v) for node %d instead of %v", v, ok, i, mv[i])
		}
	}
	if s := state("StoreMAP", n, mv, e, st2, valid); s != "" {
		return s
	}
	tr := spn.TraceMAP(n.R(), e)
	for x, c := range tr {
		i := n.Index(x)
		if i < 0 || !reach[i] || n.Ms[i].Kind != "sum" {
			return "TraceMAP has an entry for something else than a reachable sum"
		}
		if c < 0 || c >= len(n.Ms[i].Ch) {
			return vh.Sf("TraceMAP: child %d of node %d", c, i)
		}
		if !eq(lib.Log(n.Ms[i].W[c])+mv[n.Ms[i].Ch[c]], mv[i]) {
			return vh.Sf("TraceMAP: child %d of node %d does not attain its maximum", c, i)
		}
	}
	if n.Ms[n.Root].Kind == "sum" {
		if _, ok := tr[n.R()]; !ok {
			return "TraceMAP has no entry for the root"
		}
	}
	if valid && !math.IsInf(mv[n.Root], -1) {
		// the trace is a tree: every sum on it has an entry
		miss := ""
		var f func(i int)
		f = func(i int) {
			m := n.Ms[i]
			switch m.Kind {
			case "sum":
				c, ok := tr[n.Ns[i]]
				if !ok {
					miss = vh.Sf("TraceMAP has no entry for sum %d on the trace", i)
					return
				}
				f(m.Ch[c])
			case "product":
				for _, c := range m.Ch {
					f(c)
				}
			}
		}
		f(n.Root)
		if miss != "" {
			return miss
		}
	}
	if len(e) != len(e0) {
		return "the evidence was changed"
	}
	for k, v := range e0 {
		if w, ok := e[k]; !ok || w != v {
			return "the evidence was changed"
		}
	}
	return n.Unchanged()
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(4000, 120000); it++ {
			o := lib.Opt{LeafRoot: true, ZeroW: it%3 == 0, ZeroP: it%4 == 1, Unnorm: it%4 == 0, Valid: it%2 == 1}
			if it%40 == 39 {
				o.MaxLeaves, o.MaxInner = 20, 14
			}
			n := lib.Gen(r, o)
			// ties
			if it%6 == 0 {
				m := &lib.Net{NVars: n.NVars, Card: n.Card}
				for _, x := range n.Ms {
					if x.Kind == "sum" {
						w := make([]float64, len(x.W))
						for i := range w {
							w[i] = 1 / float64(len(w))
						}
						x.W = w
					}
					if x.Kind == "mult" && r.Intn(2) == 0 {
						p := make([]float64, len(x.Pr))
						for i := range p {
							p[i] = 1 / float64(len(p))
						}
						x.Pr = p
					}
					m.Add(x)
				}
				n = m
			}
			e := n.Evidence(r)
			mode := r.Intn(3)
			h.Case(len(n.Ms) > 1, vh.Sf("%v; evidence %v; ticket mode %d", n, e, mode), func() string { return check(n, e, o.Valid, mode) })
		}
	})
}
