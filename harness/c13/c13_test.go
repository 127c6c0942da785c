package c13

import (
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/utils/indep"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// cdf of the chi-square distribution with k degrees of freedom (series and continued fraction).
func cdf(x float64, k int) float64 {
	if x <= 0 {
		return 0
	}
	a, z := float64(k)/2, x/2
	lg, _ := math.Lgamma(a)
	f := math.Exp(a*math.Log(z) - z - lg)
	if z < a+1 {
		s, t := 1/a, 1/a
		for n := 1; n < 2000; n++ {
			t *= z / (a + float64(n))
			s += t
			if t < s*1e-17 {
				break
			}
		}
		return s * f
	}
	b := z + 1 - a
	c := 1e300
	d := 1 / b
	h := d
	for i := 1; i < 2000; i++ {
		an := -float64(i) * (float64(i) - a)
		b += 2
		d = an*d + b
		if math.Abs(d) < 1e-300 {
			d = 1e-300
		}
		c = b + an/c
		if math.Abs(c) < 1e-300 {
			c = 1e-300
		}
		d = 1 / d
		h *= d * c
		if math.Abs(d*c-1) < 1e-16 {
			break
		}
	}
	return 1 - f*h
}

// counts is the contingency table of two columns.
func counts(p, q int, a, b []int) [][]int {
	t := make([][]int, p+1)
	for i := range t {
		t[i] = make([]int, q+1)
	}
	for k := range a {
		t[a[k]][b[k]]++
		t[a[k]][q]++
		t[p][b[k]]++
		t[p][q]++
	}
	return t
}

func pvalue(p, q int, t [][]int, g bool) float64 {
	s := 0.0
	for i := 0; i < p; i++ {
		for j := 0; j < q; j++ {
			o := float64(t[i][j])
			e := float64(t[i][q]) * float64(t[p][j]) / float64(t[p][q])
			if g {
				if o > 0 {
					s += 2 * o * math.Log(o/e)
				}
			} else if e > 0 {
				s += (o - e) * (o - e) / e
			}
		}
	}
	return 1 - cdf(s, (p-1)*(q-1))
}

const margin = 1e-7

func norm(k [][]int) [][]int {
	var r [][]int
	for _, s := range k {
		c := append([]int{}, s...)
		sort.Ints(c)
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool {
		if len(r[i]) == 0 || len(r[j]) == 0 {
			return len(r[i]) < len(r[j])
		}
		return r[i][0] < r[j][0]
	})
	return r
}

// comps lists the components of the graph of dependent pairs (false when a test is too close to call).
func comps(ds []*utils.VarData, sig float64) ([][]int, bool) {
	n := len(ds)
	c := make([]int, n)
	for i := range c {
		c[i] = i
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			p, q := ds[i].Categories, ds[j].Categories
			v := pvalue(p, q, counts(p, q, ds[i].Data, ds[j].Data), true)
			if math.Abs(v-sig) < margin {
				return nil, false
			}
			if v < sig {
				x, y := c[i], c[j]
				for k := range c {
					if c[k] == x {
						c[k] = y
					}
				}
			}
		}
	}
	m := map[int][]int{}
	for i := range c {
		m[c[i]] = append(m[c[i]], ds[i].Varid)
	}
	var want [][]int
	for _, s := range m {
		want = append(want, s)
	}
	return norm(want), true
}

// check compares both constructors with the components.
func check(ds []*utils.VarData, sig float64, want [][]int) string {
	var keep [][]int
	for _, d := range ds {
		keep = append(keep, append([]int{}, d.Data...))
	}
	for k := 0; k < 2; k++ {
		name, g := "NewIndepGraph", (*indep.Graph)(nil)
		if k == 0 {
			g = indep.NewIndepGraph(ds, sig)
		} else {
			name, g = "NewUFIndepGraph", indep.NewUFIndepGraph(ds, sig)
		}
		if got := norm(g.Kset); vh.Sf("%v", got) != vh.Sf("%v", want) {
			return vh.Sf("%s at level %v: groups %v, components of the dependence graph %v", name, sig, got, want)
		}
		for i, d := range ds {
			for x := range d.Data {
				if d.Data[x] != keep[i][x] {
					return name + " changes the data"
				}
			}
		}
	}
	return ""
}

// gen makes columns, some of them noisy copies of others.
func gen(r *rand.Rand, n, m int) []*utils.VarData {
	id := r.Perm(3*n + 2)
	ds := make([]*utils.VarData, n)
	noise := r.Float64()
	for i := range ds {
		cat := 1 + r.Intn(4)
		d := make([]int, m)
		from := -1
		if i > 0 && r.Intn(2) == 0 {
			from = r.Intn(i)
		}
		for k := range d {
			if from >= 0 && r.Float64() > noise {
				d[k] = ds[from].Data[k] % cat
			} else {
				d[k] = r.Intn(cat)
			}
		}
		ds[i] = utils.NewVarData(id[i], cat, d)
	}
	return ds
}

func show(ds []*utils.VarData) string {
	s := ""
	for _, d := range ds {
		s += vh.Sf("{id %d, %d categories, %v} ", d.Varid, d.Categories, d.Data)
	}
	return s
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		sys.Verbose = false
		r := vh.Rand()
		h.Case(true, "distribution function", func() string {
			for df := 1; df < 30; df++ {
				for _, x := range []float64{0.01, 0.5, 1, 2.7, 3.84, 6, 10, 25, 60} {
					if a, b := indep.ChiSquare(x, df), cdf(x, df); !vh.CloseTol(a, b, 1e-8) {
						return vh.Sf("ChiSquare(%v, %d) = %v, the distribution function is %v", x, df, a, b)
					}
				}
			}
			return ""
		})
		sigs := []float64{0.0001, 0.01, 0.05, 0.2, 0.5, 0.9}
		for i := 0; i < vh.N(600, 6000); i++ {
			p, q := 2+r.Intn(4), 2+r.Intn(4)
			m := 1 + r.Intn(40)
			a, b := make([]int, m), make([]int, m)
			for k := range a {
				a[k] = r.Intn(p)
				if r.Intn(3) == 0 {
					b[k] = a[k] % q
				} else {
					b[k] = r.Intn(q)
				}
			}
			tab := counts(p, q, a, b)
			sig := sigs[r.Intn(len(sigs))]
			if r.Intn(2) == 0 {
				sig = r.Float64()
			}
			for k := 0; k < 2; k++ {
				g := k == 0
				v := pvalue(p, q, tab, g)
				h.Case(math.Abs(v-sig) >= margin, vh.Sf("test on %v, %d x %d, level %v, G %v", tab, p, q, sig, g), func() string {
					if math.Abs(v-sig) < margin {
						return ""
					}
					got := false
					if g {
						got = indep.GTest(p, q, tab, m, sig)
					} else {
						got = indep.ChiSquareTest(p, q, tab, sig)
					}
					if got != (v >= sig) {
						return vh.Sf("independent: %v, but the p-value is %v", got, v)
					}
					return ""
				})
			}
		}
		for i := 0; i < vh.N(400, 4000); i++ {
			ds := gen(r, r.Intn(9), 1+r.Intn(60))
			sig := sigs[r.Intn(len(sigs))]
			want, ok := comps(ds, sig)
			if ok {
				h.Case(len(want) > 1 && len(want) < len(ds), vh.Sf("level %v, data %s", sig, show(ds)), func() string { return check(ds, sig, want) })
			}
		}
	})
}
