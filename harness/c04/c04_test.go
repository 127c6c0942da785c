package c04

import (
	"math"
	"testing"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func logSum(a []float64) float64 {
	m := math.Inf(-1)
	for _, x := range a {
		if x > m {
			m = x
		}
	}
	if math.IsInf(m, -1) {
		return m
	}
	s := 0.0
	for _, x := range a {
		s += math.Exp(x - m)
	}
	return m + math.Log(s)
}

// signed compares LogSumLog with the signed sum of the exponentials, relative to the largest term.
func signed(v []float64, g []int) string {
	m := math.Inf(-1)
	for i, x := range v {
		if g[i] != 0 && x > m {
			m = x
		}
	}
	b, c := append([]float64{}, v...), append([]int{}, g...)
	l, sg := utils.LogSumLog(b, c)
	for i := range v {
		if b[i] != v[i] || c[i] != g[i] {
			return vh.Sf("arguments changed to %v %v", b, c)
		}
	}
	if sg < -1 || sg > 1 || math.IsNaN(l) || math.IsInf(l, 1) {
		return vh.Sf("got %v with sign %d", l, sg)
	}
	if math.IsInf(m, -1) {
		if sg != 0 && !math.IsInf(l, -1) {
			return vh.Sf("got %v with sign %d for a sum of zeros", l, sg)
		}
		return ""
	}
	want := 0.0
	for i, x := range v {
		want += math.Exp(x-m) * float64(g[i])
	}
	if got := float64(sg) * math.Exp(l-m); math.Abs(got-want) > 1e-9 {
		return vh.Sf("got %v with sign %d, that is %v of the largest term, want %v", l, sg, got, want)
	}
	return ""
}

// probs compares LogSum, LogProd and LogSumPair with the logarithms of the sum and product.
func probs(p []float64) string {
	b := append([]float64{}, p...)
	s, lp := 0.0, 0.0
	for _, x := range p {
		s += x
		lp += math.Log(x)
	}
	if got, want := utils.LogSum(b), math.Log(s); !vh.Close(got, want) {
		return vh.Sf("LogSum: got %v, want %v", got, want)
	}
	if got := utils.LogProd(b); !vh.Close(got, lp) {
		return vh.Sf("LogProd: got %v, want %v", got, lp)
	}
	for i := range p {
		if b[i] != p[i] {
			return vh.Sf("argument changed to %v", b)
		}
	}
	if len(p) > 1 {
		if got, want := utils.LogSumPair(p[0], p[1]), math.Log(p[0]+p[1]); !vh.Close(got, want) {
			return vh.Sf("LogSumPair: got %v, want %v", got, want)
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		ninf := math.Inf(-1)
		grid := []float64{ninf, 0, 1, -1, 2.5, -3, -800, 700, math.Log(0.25)}
		check := func(a []float64) {
			h.Case(len(a) > 1, vh.Sf("LogSumExp(%v)", a), func() string {
				b := append([]float64{}, a...)
				got, want := utils.LogSumExp(b), logSum(a)
				for i := range a {
					if a[i] != b[i] {
						return vh.Sf("argument changed to %v", b)
					}
				}
				if !vh.Close(got, want) {
					return vh.Sf("got %v, want %v", got, want)
				}
				return ""
			})
		}
		for _, a := range grid {
			check([]float64{a})
			for _, b := range grid {
				check([]float64{a, b})
				a, b := a, b
				h.Case(true, vh.Sf("LogSumExpPair(%v, %v)", a, b), func() string {
					if got, want := utils.LogSumExpPair(a, b), logSum([]float64{a, b}); !vh.Close(got, want) {
						return vh.Sf("got %v, want %v", got, want)
					}
					return ""
				})
				for k := 0; k < 9; k++ {
					v, g := []float64{a, b}, []int{k%3 - 1, k/3 - 1}
					h.Case(true, vh.Sf("LogSumLog(%v, %v)", v, g), func() string { return signed(v, g) })
				}
				for _, c := range grid {
					check([]float64{a, b, c})
				}
			}
			a := a
			h.Case(true, vh.Sf("AntiLog(%v)", a), func() string {
				if got, want := utils.AntiLog(a), math.Exp(a); !vh.Close(got, want) {
					return vh.Sf("got %v, want %v", got, want)
				}
				return ""
			})
		}
		r := vh.Rand()
		for i := 0; i < vh.N(5000, 100000); i++ {
			n := 1 + r.Intn(12)
			a := make([]float64, n)
			for j := range a {
				switch r.Intn(4) {
				case 0:
					a[j] = ninf
				case 1:
					a[j] = r.NormFloat64() * 300
				default:
					a[j] = -r.ExpFloat64() * 3
				}
			}
			check(a)
			g := make([]int, n)
			for j := range g {
				g[j] = r.Intn(3) - 1
			}
			if r.Intn(4) == 0 && n > 1 {
				// cancelling terms
				a[n-1], g[n-1] = a[0], -g[0]
			}
			h.Case(n > 1, vh.Sf("LogSumLog(%v, %v)", a, g), func() string { return signed(a, g) })
			p := make([]float64, n)
			for j := range p {
				if r.Intn(4) > 0 {
					p[j] = r.Float64()
				}
			}
			if r.Intn(6) == 0 {
				p = make([]float64, n)
			}
			h.Case(n > 1, vh.Sf("LogSum, LogProd, LogSumPair on %v", p), func() string { return probs(p) })
			x, y := a[0], a[n-1]
			h.Case(true, vh.Sf("LogSumExpPair(%v, %v)", x, y), func() string {
				if got, want := utils.LogSumExpPair(x, y), logSum([]float64{x, y}); !vh.Close(got, want) {
					return vh.Sf("got %v, want %v", got, want)
				}
				return ""
			})
		}
	})
}
