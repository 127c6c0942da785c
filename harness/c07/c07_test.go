package c07

import (
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// derivs is the model: children precede parents in n.Ms, so going down the indices visits every
// parent before its children.
func derivs(n *lib.Net, val []float64) []float64 {
	reach := n.Reach()
	terms := make([][]float64, len(n.Ms))
	d := make([]float64, len(n.Ms))
	terms[n.Root] = append(terms[n.Root], 0)
	for i := len(n.Ms) - 1; i >= 0; i-- {
		if !reach[i] {
			continue
		}
		d[i] = lib.Lse(terms[i])
		m := n.Ms[i]
		for j, c := range m.Ch {
			if m.Kind == "sum" {
				terms[c] = append(terms[c], lib.Log(m.W[j])+d[i])
				continue
			}
			t := d[i]
			for l, k := range m.Ch {
				if l != j {
					t += val[k]
				}
			}
			terms[c] = append(terms[c], t)
		}
	}
	return d
}

func coll(k int) (common.Collection, string) {
	switch k {
	case 0:
		return nil, "nil"
	case 1:
		return &common.Queue{}, "queue"
	}
	return &common.Stack{}, "stack"
}

func check(n *lib.Net, es []spn.VarSet, given bool, ck int, r *rand.Rand) string {
	reach := n.Reach()
	st := spn.NewStorer()
	other := st.NewTicket()
	for i := range n.Ms {
		st.Store(other, n.Ns[i], 0, float64(i)+100)
		st.Store(other, n.Ns[i], 1, float64(i)+200)
	}
	intact := func(what string) string {
		for i := range n.Ms {
			v, ok := st.Single(other, n.Ns[i])
			w, ok2 := st.Entry(other, n.Ns[i], 1)
			if !ok || !ok2 || v != float64(i)+100 || w != float64(i)+200 {
				return vh.Sf("%s changed an entry of node %d under another ticket", what, i)
			}
		}
		if s := n.Unchanged(); s != "" {
			return what + " changed the network: " + s
		}
		return ""
	}
	acc := make([][][]float64, len(n.Ms)) // node, edge, terms over the instances
	for i := range acc {
		acc[i] = make([][]float64, len(n.Ms[i].Ch))
	}
	btk := -1
	for bi, e := range es {
		val := n.Values(func(i int, m lib.M) float64 { return m.LeafLog(e) })
		want := derivs(n, val)
		_, itk := spn.StoreInference(n.R(), e, -1, st)
		tk := -1
		if given {
			tk = st.NewTicket()
		}
		c, cn := coll(ck)
		s, dtk := learn.DeriveSPN(n.R(), st, tk, itk, c)
		if s != n.R() {
			return "DeriveSPN returned another node"
		}
		if given && dtk != tk || !given && (dtk == other || dtk == itk) {
			return vh.Sf("DeriveSPN used ticket %d", dtk)
		}
		for i := range n.Ms {
			if !reach[i] {
				continue
			}
			v, ok := st.Single(dtk, n.Ns[i])
			if !ok {
				return vh.Sf("DeriveSPN stored nothing for node %d", i)
			}
			if !vh.Close(v, want[i]) {
				return vh.Sf("DeriveSPN (%s) stored %v for node %d, the partial derivative is %v", cn, v, i, want[i])
			}
			if v, ok := st.Single(itk, n.Ns[i]); !ok || !vh.Close(v, val[i]) {
				return vh.Sf("the stored value of node %d is %v after DeriveSPN, not %v", i, v, val[i])
			}
		}
		if s := intact("DeriveSPN"); s != "" {
			return s
		}
		tk = -1
		if given {
			tk = st.NewTicket()
			// older content is replaced
			for i, m := range n.Ms {
				for j := range m.Ch {
					st.Store(tk, n.Ns[i], j, 5)
				}
			}
		}
		c, _ = coll((ck + bi) % 3)
		s, wtk := learn.DeriveWeights(n.R(), st, tk, dtk, itk, c)
		if s != n.R() || given && wtk != tk || !given && (wtk == other || wtk == itk || wtk == dtk) {
			return vh.Sf("DeriveWeights returned node %v ticket %d", s == n.R(), wtk)
		}
		for i, m := range n.Ms {
			if !reach[i] || m.Kind != "sum" {
				continue
			}
			for j, k := range m.Ch {
				w := val[k] + want[i]
				v, ok := st.Entry(wtk, n.Ns[i], j)
				if !ok || !vh.Close(v, w) {
					return vh.Sf("DeriveWeights stored %v (%v) for edge %d of node %d, the derivative is %v", v, ok, j, i, w)
				}
				acc[i][j] = append(acc[i][j], w)
			}
		}
		if s := intact("DeriveWeights"); s != "" {
			return s
		}
		c, _ = coll((ck + bi) % 3)
		_, k := learn.DeriveWeightsBatch(n.R(), st, btk, dtk, itk, c)
		if btk >= 0 && k != btk || k == other || k == itk || k == dtk || k == wtk {
			return vh.Sf("DeriveWeightsBatch used ticket %d", k)
		}
		btk = k
		for i, m := range n.Ms {
			if !reach[i] || m.Kind != "sum" {
				continue
			}
			for j := range m.Ch {
				w := lib.Lse(acc[i][j])
				v, ok := st.Entry(btk, n.Ns[i], j)
				if !ok || !vh.Close(v, w) {
					return vh.Sf("DeriveWeightsBatch stored %v (%v) for edge %d of node %d after %d instances, the accumulated derivative is %v", v, ok, j, i, bi+1, w)
				}
			}
		}
		if s := intact("DeriveWeightsBatch"); s != "" {
			return s
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		run := func(n *lib.Net, es []spn.VarSet) {
			given, ck := r.Intn(2) == 0, r.Intn(3)
			h.Case(len(n.Ms) > 1, vh.Sf("%v; evidence %v; ticket given %v; collection %d", n, es, given, ck), func() string { return check(n, es, given, ck, r) })
		}
		for it := 0; it < vh.N(2000, 60000); it++ {
			o := lib.Opt{LeafRoot: true, ZeroW: it%3 == 0, ZeroP: it%4 == 1, Unnorm: it%2 == 0, Valid: it%5 == 4}
			if it%40 == 39 {
				o.MaxLeaves, o.MaxInner = 20, 14
			}
			n := lib.Gen(r, o)
			var es []spn.VarSet
			for i := 0; i < 1+r.Intn(3); i++ {
				es = append(es, n.Evidence(r))
			}
			run(n, es)
		}
		// derivatives far outside the range of the exponential: siblings with very small values
		for it := 0; it < vh.N(20, 200); it++ {
			n := &lib.Net{NVars: 200 + r.Intn(300), Card: 2}
			var a, b []int
			e := spn.VarSet{}
			for v := 0; v < n.NVars; v++ {
				p := 0.001 + 0.01*r.Float64()
				a = append(a, n.Add(lib.M{Kind: "mult", Var: v, Pr: []float64{p, 1 - p}}))
				q := 0.001 + 0.02*r.Float64()
				b = append(b, n.Add(lib.M{Kind: "mult", Var: v, Pr: []float64{q, 1 - q}}))
				e[v] = 0
			}
			x := n.Add(lib.M{Kind: "product", Ch: a})
			y := n.Add(lib.M{Kind: "product", Ch: append(b, a[0])})
			z := n.Add(lib.M{Kind: "sum", Ch: []int{x, y}, W: []float64{0.25, 0.75}})
			n.Add(lib.M{Kind: "sum", Ch: []int{z, x}, W: []float64{0.5, 0.5}})
			run(n, []spn.VarSet{e})
		}
	})
}
