package c08

import (
	"math"
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// vec is a random weight vector with a positive total after shifting
func vec(r *rand.Rand, k int) []float64 {
	for {
		v := make([]float64, k)
		for i := range v {
			switch r.Intn(6) {
			case 0:
				v[i] = 0
			case 1, 2:
				v[i] = 4*r.Float64() - 2
			case 3:
				v[i] = float64(r.Intn(7) - 2)
			case 4:
				v[i] = math.Exp(20*r.Float64() - 10)
			default:
				v[i] = r.Float64()
			}
		}
		if r.Intn(3) > 0 {
			for i := range v {
				v[i] = math.Abs(v[i])
			}
		}
		_, t := norm(v)
		if t > 1e-3 {
			return v
		}
	}
}

func norm(v []float64) ([]float64, float64) {
	m, t := 0.0, 0.0
	for _, x := range v {
		m = math.Min(m, x)
	}
	for _, x := range v {
		t += x - m
	}
	w := make([]float64, len(v))
	for i, x := range v {
		w[i] = (x - m) / t
	}
	return w, t
}

func same(got, from []float64) string {
	want, _ := norm(from)
	if len(got) != len(want) {
		return vh.Sf("%d weights instead of %d", len(got), len(want))
	}
	s := 0.0
	for i := range got {
		if got[i] < 0 || !vh.CloseTol(got[i], want[i], 1e-10) {
			return vh.Sf("weights %v became %v instead of %v", from, got, want)
		}
		s += got[i]
	}
	if math.Abs(s-1) > 1e-9 {
		return vh.Sf("weights %v became %v with sum %v", from, got, s)
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(6000, 200000); it++ {
			v := vec(r, 1+r.Intn(7))
			h.Case(len(v) > 1, vh.Sf("vector %v", v), func() string {
				// the vector sits inside a larger array
				a := append(append([]float64{5, -3}, v...), 7, 8)
				learn.Normalize(a[2 : 2+len(v)])
				if a[0] != 5 || a[1] != -3 || a[2+len(v)] != 7 || a[3+len(v)] != 8 {
					return "values outside the vector changed"
				}
				return same(a[2:2+len(v)], v)
			})
		}
		for it := 0; it < vh.N(3000, 100000); it++ {
			g := lib.Gen(r, lib.Opt{LeafRoot: true, Unnorm: true, Valid: it%4 == 3})
			n := &lib.Net{NVars: g.NVars, Card: g.Card}
			for _, m := range g.Ms {
				if m.Kind == "sum" {
					m.W = vec(r, len(m.W))
				}
				n.Add(m)
			}
			// normalise from any node
			root := r.Intn(len(n.Ms))
			if it%2 == 0 {
				root = len(n.Ms) - 1
			}
			n.Root = root
			h.Case(len(n.Ms) > 1, n.String(), func() string {
				reach := n.Reach()
				if spn.NormalizeSPN(n.R()) != n.R() {
					return "another node was returned"
				}
				for i := range n.Ms {
					m := &n.Ms[i]
					if m.Kind != "sum" || !reach[i] {
						continue
					}
					w := n.Ns[i].(*spn.Sum).Weights()
					if s := same(w, m.W); s != "" {
						return vh.Sf("sum %d: %s", i, s)
					}
					m.W = append([]float64{}, w...)
				}
				return n.Unchanged()
			})
		}
	})
}
