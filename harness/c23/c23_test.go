package c23

import (
	"math"
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// moments of a list of values, from the definition
func moments(x []int) (float64, float64) {
	var s, q float64
	for _, v := range x {
		s += float64(v)
	}
	mu := s / float64(len(x))
	for _, v := range x {
		q += (float64(v) - mu) * (float64(v) - mu)
	}
	return mu, math.Sqrt(q / float64(len(x)))
}

func hist(c []int) string {
	var x []int
	for i, n := range c {
		for ; n > 0; n-- {
			x = append(x, i)
		}
	}
	mu, sd := moments(x)
	cp := append([]int{}, c...)
	if g := utils.Mean(c); !vh.Close(g, mu) {
		return vh.Sf("Mean %v instead of %v", g, mu)
	}
	if g := utils.StdDev(c); !vh.CloseTol(g, sd, 1e-7) {
		return vh.Sf("StdDev %v instead of %v", g, sd)
	}
	if a, b := utils.MuSigma(c); !vh.Close(a, mu) || !vh.CloseTol(b, sd, 1e-7) {
		return vh.Sf("MuSigma %v %v instead of %v %v", a, b, mu, sd)
	}
	if vh.Sf("%v", c) != vh.Sf("%v", cp) {
		return "the counts were changed"
	}
	return ""
}

func quant(X []int, m int) string {
	cp := append([]int{}, X...)
	P := utils.PartitionQuantiles(X, m)
	if len(P) != m {
		return vh.Sf("%d parts instead of %d", len(P), m)
	}
	if vh.Sf("%v", X) != vh.Sf("%v", cp) {
		return "the values were changed"
	}
	l := 1
	if len(X)/m > 1 {
		l = int(math.Floor(float64(len(X))/float64(m) + 0.5))
	}
	p := 0
	for i, q := range P {
		if len(q) != 3 {
			return vh.Sf("part %d: %v", i, q)
		}
		n := int(q[2])
		if float64(n) != q[2] || n < 0 || p+n > len(X) {
			return vh.Sf("part %d has size %v after %d of %d values", i, q[2], p, len(X))
		}
		if i < m-1 && n != l && p+n != len(X) {
			return vh.Sf("part %d has size %d instead of %d", i, n, l)
		}
		if n > 0 {
			mu, sd := moments(X[p : p+n])
			if !vh.Close(q[0], mu) {
				return vh.Sf("part %d: mean %v instead of %v", i, q[0], mu)
			}
			if sd == 0 {
				sd = 0.5
			}
			if !vh.CloseTol(q[1], sd, 1e-7) {
				return vh.Sf("part %d: deviation %v instead of %v", i, q[1], sd)
			}
		}
		p += n
	}
	if p != len(X) {
		return vh.Sf("the parts have %d of %d values", p, len(X))
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) { all(h, vh.Rand()) })
}

func all(h *vh.T, r *rand.Rand) {
	for it := 0; it < vh.N(3000, 50000); it++ {
		c := make([]int, 1+r.Intn(10))
		for i := range c {
			switch r.Intn(4) {
			case 0:
			case 1:
				c[i] = r.Intn(60)
			default:
				c[i] = r.Intn(5)
			}
		}
		c[r.Intn(len(c))] += 1 + r.Intn(3)
		h.Case(len(c) > 1, vh.Sf("counts %v", c), func() string { return hist(c) })
	}
	// every size of data and number of parts
	for k := 0; k <= vh.N(40, 80); k++ {
		for m := 1; m <= vh.N(30, 60); m++ {
			X := make([]int, k)
			for i := range X {
				X[i] = i*i%7 + r.Intn(6)*r.Intn(10)
				if i > 0 && r.Intn(3) == 0 {
					X[i] = X[i-1]
				}
			}
			h.Case(k > 0, vh.Sf("values %v, %d parts", X, m), func() string { return quant(X, m) })
		}
	}
	for it := 0; it < vh.N(200, 3000); it++ {
		X := make([]int, r.Intn(400))
		for i := range X {
			X[i] = r.Intn(256)
		}
		m := 1 + r.Intn(20)
		h.Case(len(X) > 0, vh.Sf("values %v, %d parts", X, m), func() string { return quant(X, m) })
	}
}
