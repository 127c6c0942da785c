package c02

import (
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func same(a, b spn.VarSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func cp(a spn.VarSet) spn.VarSet {
	b := spn.VarSet{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

func check(n *lib.Net, e spn.VarSet, y, yv, mode int, r *rand.Rand) string {
	want := n.Values(func(i int, m lib.M) float64 { return m.LeafLog(e) })
	e0 := cp(e)
	reach := n.Reach()
	chk := func(what string) string {
		if !same(e, e0) {
			return vh.Sf("%s changed the evidence from %v to %v", what, e0, e)
		}
		if s := n.Unchanged(); s != "" {
			return what + " changed the network: " + s
		}
		return ""
	}
	for i := range n.Ms {
		if !reach[i] {
			continue
		}
		if g := n.Ns[i].Value(e); !vh.Close(g, want[i]) {
			return vh.Sf("Value of node %d is %v, the polynomial gives %v", i, g, want[i])
		}
	}
	if s := chk("Value"); s != "" {
		return s
	}
	if g := spn.Inference(n.R(), e); !vh.Close(g, want[n.Root]) {
		return vh.Sf("Inference returned %v, the polynomial gives %v", g, want[n.Root])
	}
	if s := chk("Inference"); s != "" {
		return s
	}
	// stored inference: new ticket, ticket with older content, other tickets untouched
	st := spn.NewStorer()
	tk := -1
	if mode > 0 && len(n.Ms)%2 == 0 {
		tk = st.NewTicket()
	}
	other := st.NewTicket()
	for i := range n.Ms {
		st.Store(other, n.Ns[i], 0, float64(i)+100)
	}
	if mode > 0 {
		if tk < 0 {
			tk = st.NewTicket()
		}
		if mode == 2 {
			for i := range n.Ms {
				st.Store(tk, n.Ns[i], 0, 777)
				st.Store(tk, n.Ns[i], 3, 778)
			}
		}
	}
	s, k := spn.StoreInference(n.R(), e, tk, st)
	if s != n.R() {
		return "StoreInference returned another node"
	}
	if tk >= 0 && k != tk {
		return vh.Sf("StoreInference used ticket %d instead of %d", k, tk)
	}
	if tk < 0 && k == other {
		return "StoreInference reused a ticket in use"
	}
	for i := range n.Ms {
		if v, ok := st.Single(other, n.Ns[i]); !ok || v != float64(i)+100 {
			return vh.Sf("StoreInference changed the entry of node %d under another ticket", i)
		}
		if !reach[i] {
			continue
		}
		v, ok := st.Single(k, n.Ns[i])
		if !ok {
			return vh.Sf("StoreInference stored nothing for node %d", i)
		}
		if !vh.Close(v, want[i]) {
			return vh.Sf("StoreInference stored %v for node %d, the polynomial gives %v", v, i, want[i])
		}
		if mode == 2 {
			if v, ok := st.Entry(k, n.Ns[i], 3); !ok || v != 778 {
				return vh.Sf("StoreInference changed position 3 of node %d", i)
			}
		}
	}
	if s := chk("StoreInference"); s != "" {
		return s
	}
	// the same ticket again with other evidence
	e2 := n.Evidence(r)
	want2 := n.Values(func(i int, m lib.M) float64 { return m.LeafLog(e2) })
	spn.StoreInference(n.R(), e2, k, st)
	for i := range n.Ms {
		if !reach[i] {
			continue
		}
		if v, ok := st.Single(k, n.Ns[i]); !ok || !vh.Close(v, want2[i]) {
			return vh.Sf("StoreInference with evidence %v over the values of %v stored %v for node %d, the polynomial gives %v", e2, e, v, i, want2[i])
		}
	}
	// one variable overridden
	ey := cp(e)
	ey[y] = yv
	wantY := n.Values(func(i int, m lib.M) float64 { return m.LeafLog(ey) })
	if g := spn.InferenceY(n.R(), e, y, yv); !vh.Close(g, wantY[n.Root]) {
		return vh.Sf("InferenceY with X%d=%d returned %v, the polynomial gives %v", y, yv, g, wantY[n.Root])
	}
	return chk("InferenceY")
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		run := func(n *lib.Net, e spn.VarSet) {
			y, yv, mode := r.Intn(n.NVars), r.Intn(n.Card), r.Intn(3)
			h.Case(len(n.Ms) > 1, vh.Sf("%v; evidence %v; override X%d=%d; ticket mode %d", n, e, y, yv, mode), func() string { return check(n, e, y, yv, mode, r) })
		}
		for it := 0; it < vh.N(2500, 80000); it++ {
			o := lib.Opt{LeafRoot: true, ZeroW: it%3 == 0, ZeroP: it%4 == 1, Unnorm: it%2 == 0, Valid: it%5 == 4}
			if it%40 == 39 {
				o.MaxLeaves, o.MaxInner = 20, 14
			}
			n := lib.Gen(r, o)
			e := n.Evidence(r)
			if r.Intn(6) == 0 {
				e[90+r.Intn(3)] = r.Intn(3)
			}
			run(n, e)
		}
		// values far below the smallest float: products of many small leaves under a chain of sums
		for it := 0; it < vh.N(40, 400); it++ {
			n := &lib.Net{NVars: 40 + r.Intn(300), Card: 2}
			var a, b []int
			e := spn.VarSet{}
			for v := 0; v < n.NVars; v++ {
				p := 0.001 + 0.01*r.Float64()
				a = append(a, n.Add(lib.M{Kind: "mult", Var: v, Pr: []float64{p, 1 - p}}))
				q := 0.001 + 0.02*r.Float64()
				b = append(b, n.Add(lib.M{Kind: "mult", Var: v, Pr: []float64{q, 1 - q}}))
				if r.Intn(10) > 0 {
					e[v] = 0
				}
			}
			x := n.Add(lib.M{Kind: "product", Ch: a})
			y := n.Add(lib.M{Kind: "product", Ch: b})
			z := n.Add(lib.M{Kind: "sum", Ch: []int{x, y}, W: []float64{0.25, 0.75}})
			n.Add(lib.M{Kind: "sum", Ch: []int{z, x}, W: []float64{0.5, 0.5}})
			run(n, e)
		}
	})
}
