package c09

import (
	"math"
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func eqI(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// leaf checks one leaf: val is the log-probability of a value, mode a predicate on the best state, top the best value
func leaf(s spn.SPN, v int, dom []int, val func(x int) float64, top float64, mode func(x int) bool) string {
	if s.Type() != "leaf" {
		return "Type is " + s.Type()
	}
	if !eqI(s.Sc(), []int{v}) {
		return vh.Sf("scope %v", s.Sc())
	}
	for _, e := range []spn.VarSet{{}, nil, {v + 1: 0}, {v - 1: 1, v + 7: 0}} {
		if g := s.Value(e); g != 0 {
			return vh.Sf("unobserved leaf has value %v for evidence %v", g, e)
		}
		if g := s.Max(e); !vh.Close(g, top) {
			return vh.Sf("unobserved leaf has maximum %v instead of %v", g, top)
		}
		st, g := s.ArgMax(e)
		if !vh.Close(g, top) {
			return vh.Sf("ArgMax of an unobserved leaf has value %v instead of %v", g, top)
		}
		x, ok := st[v]
		if !ok || len(st) != 1 || !mode(x) {
			return vh.Sf("ArgMax of an unobserved leaf has state %v", st)
		}
	}
	for _, x := range dom {
		e := spn.VarSet{v: x, v + 1: x + 1}
		w := val(x)
		if g := s.Value(e); !vh.Close(g, w) {
			return vh.Sf("value of %d is %v instead of %v", x, g, w)
		}
		if g := s.Max(e); !vh.Close(g, w) {
			return vh.Sf("maximum of observed %d is %v instead of %v", x, g, w)
		}
		st, g := s.ArgMax(e)
		if !vh.Close(g, w) {
			return vh.Sf("ArgMax of observed %d has value %v instead of %v", x, g, w)
		}
		for k, y := range st {
			if k != v || y != x {
				return vh.Sf("ArgMax of observed %d has state %v", x, st)
			}
		}
		if _, ok := st[v]; !ok && !math.IsInf(w, -1) {
			return vh.Sf("ArgMax of observed %d lost the observation", x)
		}
		if len(e) != 2 || e[v] != x || e[v+1] != x+1 {
			return "the evidence was changed"
		}
	}
	return ""
}

func mult(m *spn.Multinomial, v int, p []float64) string {
	if len(m.Pr()) != len(p) {
		return vh.Sf("%d probabilities instead of %d", len(m.Pr()), len(p))
	}
	top := math.Inf(-1)
	var dom []int
	mu := 0.0
	for i, q := range p {
		if !vh.Close(m.Pr()[i], q) {
			return vh.Sf("probability %d is %v instead of %v", i, m.Pr()[i], q)
		}
		top = math.Max(top, lib.Log(q))
		dom = append(dom, i)
		mu += q * float64(i)
	}
	sd := 0.0
	for i, q := range p {
		sd += q * (float64(i) - mu) * (float64(i) - mu)
	}
	sd = math.Sqrt(sd)
	if s := leaf(m, v, dom, func(x int) float64 { return lib.Log(p[x]) }, top, func(x int) bool { return x >= 0 && x < len(p) && vh.Close(lib.Log(p[x]), top) }); s != "" {
		return s
	}
	if g := m.Mean(); !vh.Close(g, mu) {
		return vh.Sf("Mean is %v instead of %v", g, mu)
	}
	if g := m.StdDev(); !vh.CloseTol(g, sd, 1e-7) {
		return vh.Sf("StdDev is %v instead of %v", g, sd)
	}
	if a, b := m.MuSigma(); !vh.Close(a, mu) || !vh.CloseTol(b, sd, 1e-7) {
		return vh.Sf("MuSigma is %v, %v instead of %v, %v", a, b, mu, sd)
	}
	return ""
}

func gauss(g *spn.Gaussian, v int, mu, sd float64) string {
	a, b := g.Params()
	if !vh.Close(a, mu) || !vh.CloseTol(b, sd, 1e-7) {
		return vh.Sf("parameters %v, %v instead of %v, %v", a, b, mu, sd)
	}
	if b == 0 {
		f := func(x int) float64 {
			if x == int(a) {
				return 0
			}
			return math.Inf(-1)
		}
		return leaf(g, v, []int{int(a) - 1, int(a), int(a) + 1, 40}, f, 0, func(x int) bool { return x == int(a) })
	}
	if b < 1e-6 {
		return ""
	}
	f := func(x float64) float64 {
		d := (x - a) / b
		return -d*d/2 - math.Log(b) - 0.5*math.Log(2*math.Pi)
	}
	return leaf(g, v, []int{-3, -1, 0, 1, 2, 5, 17}, func(x int) float64 { return f(float64(x)) }, f(a), func(x int) bool { return math.Abs(float64(x)-a) <= 0.5 })
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(6000, 200000); it++ {
			v := r.Intn(6)
			k := 1 + r.Intn(6)
			switch it % 9 {
			case 0:
				x := r.Intn(5) - 1
				h.Case(true, vh.Sf("indicator X%d=%d", v, x), func() string {
					return leaf(spn.NewIndicator(v, x), v, []int{x - 1, x, x + 1, 0, 9}, func(y int) float64 {
						if x == y {
							return 0
						}
						return math.Inf(-1)
					}, 0, func(y int) bool { return x == y })
				})
			case 1, 2:
				p := lib.Dist(r, k, it%2 == 0)
				if r.Intn(4) == 0 {
					for i := range p {
						p[i] = 1 / float64(k)
					}
				}
				if r.Intn(3) == 0 { // ties below and at the top
					s := 0.0
					for i := range p {
						p[i] = float64(1 + r.Intn(3))
						s += p[i]
					}
					for i := range p {
						p[i] /= s
					}
				}
				q := append([]float64{}, p...)
				h.Case(k > 1, vh.Sf("multinomial X%d %v", v, p), func() string { return mult(spn.NewMultinomial(v, p), v, q) })
			case 3:
				h.Case(k > 1, vh.Sf("empty multinomial X%d of %d", v, k), func() string {
					p := make([]float64, k)
					for i := range p {
						p[i] = 1 / float64(k)
					}
					return mult(spn.NewEmptyMultinomial(v, k), v, p)
				})
			case 4, 5:
				c, n := make([]int, k), 0
				for i := range c {
					c[i] = r.Intn(1 + r.Intn(12))
					n += c[i]
				}
				c0 := append([]int{}, c...)
				p := make([]float64, k)
				for i := range p {
					p[i] = float64(c[i]+1) / float64(n+k)
				}
				h.Case(k > 1, vh.Sf("counting multinomial X%d %v (scoped: %v)", v, c, it%2 == 0), func() string {
					m := spn.NewCountingMultinomial(v, c)
					if it%2 == 0 {
						m = spn.NewScopedCountingMultinomial(v, []int{v}, c)
					}
					if !eqI(c, c0) {
						return "the counts were changed"
					}
					return mult(m, v, p)
				})
			case 6:
				mu, sd := math.Round(1000*(6*r.Float64()-2))/1000, 0.2+3*r.Float64()
				if r.Intn(5) == 0 {
					sd = 0
				}
				h.Case(true, vh.Sf("gaussian X%d mu=%v sigma=%v", v, mu, sd), func() string { return gauss(spn.NewGaussianParams(v, mu, sd), v, mu, sd) })
			case 7:
				xs := make([]float64, k)
				mu := 0.0
				for i := range xs {
					xs[i] = 8*r.Float64() - 3
					if r.Intn(3) == 0 {
						xs[i] = xs[0]
					}
					mu += xs[i] / float64(k)
				}
				sd := 0.0
				for _, x := range xs {
					sd += (x - mu) * (x - mu) / float64(k)
				}
				h.Case(k > 1, vh.Sf("gaussian X%d of values %v", v, xs), func() string { return gauss(spn.NewGaussianRaw(v, xs), v, mu, math.Sqrt(sd)) })
			case 8:
				c, n := make([]int, k), 0
				for i := range c {
					c[i] = r.Intn(1 + r.Intn(12))
					n += c[i]
				}
				if n == 0 {
					c[r.Intn(k)], n = 2, 2
				}
				mu, sd, mode := 0.0, 0.0, 0
				for i := range c {
					mu += float64(c[i]*i) / float64(n)
					if c[i] > c[mode] {
						mode = i
					}
				}
				for i := range c {
					sd += float64(c[i]) / float64(n) * (float64(i) - mu) * (float64(i) - mu)
				}
				sd = math.Sqrt(sd)
				h.Case(k > 1, vh.Sf("gaussian X%d of counts %v", v, c), func() string {
					if s := gauss(spn.NewGaussian(v, c), v, mu, sd); s != "" {
						return s
					}
					if s := gauss(spn.NewGaussianMode(v, c), v, float64(mode), sd); s != "" {
						return "centered on the mode: " + s
					}
					return ""
				})
			}
		}
	})
}
