// Package lib builds random networks together with an independent model of them.
package lib

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/RenatoGeh/gospn/spn"
)

// M is the model of a node.
type M struct {
	Kind      string // sum, product, ind, mult, gauss
	Ch        []int
	W         []float64
	Var, Val  int
	Pr        []float64
	Mu, Sigma float64
}

// Net is a network and its model; children precede parents.
type Net struct {
	Ms    []M
	Ns    []spn.SPN
	Root  int
	NVars int
	Card  int
}

// Opt selects what is generated.
type Opt struct {
	MaxLeaves, MaxInner int
	NoGauss, NoMult     bool
	ZeroW               bool // weights of zero may occur
	ZeroP               bool // probabilities of zero may occur
	Unnorm              bool // weights need not sum to one
	Valid               bool // complete and decomposable
	Deep                bool
	LeafRoot            bool // single leaf networks may occur
}

// R returns the root.
func (n *Net) R() spn.SPN { return n.Ns[n.Root] }

func (n *Net) String() string {
	var b strings.Builder
	reach := n.Reach()
	for i, m := range n.Ms {
		if !reach[i] {
			continue
		}
		switch m.Kind {
		case "sum":
			fmt.Fprintf(&b, "n%d=sum%v w%v; ", i, m.Ch, m.W)
		case "product":
			fmt.Fprintf(&b, "n%d=prod%v; ", i, m.Ch)
		case "ind":
			fmt.Fprintf(&b, "n%d=[X%d=%d]; ", i, m.Var, m.Val)
		case "mult":
			fmt.Fprintf(&b, "n%d=mult X%d %v; ", i, m.Var, m.Pr)
		case "gauss":
			fmt.Fprintf(&b, "n%d=gauss X%d mu=%v sigma=%v; ", i, m.Var, m.Mu, m.Sigma)
		}
	}
	return fmt.Sprintf("%sroot n%d", b.String(), n.Root)
}

// Reach returns the nodes reachable from the root.
func (n *Net) Reach() map[int]bool {
	r := map[int]bool{}
	var f func(i int)
	f = func(i int) {
		if r[i] {
			return
		}
		r[i] = true
		for _, c := range n.Ms[i].Ch {
			f(c)
		}
	}
	f(n.Root)
	return r
}

// Index finds the model index of a node.
func (n *Net) Index(s spn.SPN) int {
	for i, x := range n.Ns {
		if x == s {
			return i
		}
	}
	return -1
}

// Add appends a model node and builds the real one.
func (n *Net) Add(m M) int {
	var s spn.SPN
	switch m.Kind {
	case "sum":
		z := spn.NewSum()
		for i, c := range m.Ch {
			z.AddChildW(n.Ns[c], m.W[i])
		}
		s = z
	case "product":
		z := spn.NewProduct()
		for _, c := range m.Ch {
			z.AddChild(n.Ns[c])
		}
		s = z
	case "ind":
		s = spn.NewIndicator(m.Var, m.Val)
	case "mult":
		s = spn.NewMultinomial(m.Var, append([]float64{}, m.Pr...))
	case "gauss":
		s = spn.NewGaussianParams(m.Var, m.Mu, m.Sigma)
	}
	n.Ms = append(n.Ms, m)
	n.Ns = append(n.Ns, s)
	n.Root = len(n.Ms) - 1
	return n.Root
}

func (n *Net) leaf(r *rand.Rand, v int, o Opt) int {
	switch k := r.Intn(4); {
	case k == 0 && !o.NoGauss:
		if r.Intn(5) == 0 { // degenerate
			return n.Add(M{Kind: "gauss", Var: v, Mu: float64(r.Intn(4)) + 0.5*float64(r.Intn(2)), Sigma: 0})
		}
		return n.Add(M{Kind: "gauss", Var: v, Mu: float64(r.Intn(5)) - 1 + r.Float64(), Sigma: 0.25 + 2*r.Float64()})
	case k <= 2 && !o.NoMult:
		return n.Add(M{Kind: "mult", Var: v, Pr: Dist(r, n.Card, o.ZeroP)})
	}
	return n.Add(M{Kind: "ind", Var: v, Val: r.Intn(n.Card)})
}

// Dist is a random distribution.
func Dist(r *rand.Rand, k int, zero bool) []float64 {
	p := make([]float64, k)
	s := 0.0
	for i := range p {
		p[i] = 0.05 + r.Float64()
		if zero && r.Intn(4) == 0 {
			p[i] = 0
		}
		s += p[i]
	}
	if s == 0 {
		p[r.Intn(k)], s = 1, 1
	}
	for i := range p {
		p[i] /= s
	}
	return p
}

func (n *Net) weights(r *rand.Rand, k int, o Opt) []float64 {
	w := Dist(r, k, o.ZeroW)
	if o.Unnorm {
		f := 0.2 + 3*r.Float64()
		for i := range w {
			w[i] *= f
		}
	}
	return w
}

// Gen generates a random network.
func Gen(r *rand.Rand, o Opt) *Net {
	n := &Net{NVars: 1 + r.Intn(5), Card: 2 + r.Intn(3)}
	if o.MaxLeaves == 0 {
		o.MaxLeaves, o.MaxInner = 6, 8
	}
	if o.Valid {
		vs := r.Perm(n.NVars)
		memo := map[string][]int{}
		n.valid(r, vs, 3+r.Intn(3), o, memo, true)
		return n
	}
	nl := 1 + r.Intn(o.MaxLeaves)
	for i := 0; i < nl; i++ {
		n.leaf(r, r.Intn(n.NVars), o)
	}
	if o.LeafRoot && r.Intn(6) == 0 {
		return n
	}
	ni := 1 + r.Intn(o.MaxInner)
	for i := 0; i < ni; i++ {
		k := 1 + r.Intn(4)
		var ch []int
		for j := 0; j < k; j++ {
			// prefer recent nodes so that the network is deep, with edges that skip levels
			t := len(n.Ms)
			c := r.Intn(t)
			if r.Intn(2) == 0 {
				c = t - 1 - r.Intn(1+t/3)
			}
			ch = append(ch, c)
		}
		if r.Intn(2) == 0 {
			n.Add(M{Kind: "sum", Ch: ch, W: n.weights(r, len(ch), o)})
		} else {
			n.Add(M{Kind: "product", Ch: ch})
		}
	}
	return n
}

func (n *Net) valid(r *rand.Rand, vs []int, depth int, o Opt, memo map[string][]int, top bool) int {
	key := fmt.Sprint(vs)
	if l := memo[key]; len(l) > 0 && !top && r.Intn(3) == 0 {
		return l[r.Intn(len(l))]
	}
	var id int
	switch {
	case len(vs) == 1 && (depth <= 0 || r.Intn(2) == 0):
		id = n.leaf(r, vs[0], o)
	case len(vs) == 1 || (r.Intn(2) == 0 && depth > 0):
		k := 1 + r.Intn(3)
		var ch []int
		for i := 0; i < k; i++ {
			ch = append(ch, n.valid(r, vs, depth-1, o, memo, false))
		}
		id = n.Add(M{Kind: "sum", Ch: ch, W: n.weights(r, k, o)})
	default:
		p := append([]int{}, vs...)
		r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		k := 1 + r.Intn(len(p)-1)
		a, b := append([]int{}, p[:k]...), append([]int{}, p[k:]...)
		id = n.Add(M{Kind: "product", Ch: []int{n.valid(r, a, depth-1, o, memo, false), n.valid(r, b, depth-1, o, memo, false)}})
	}
	memo[key] = append(memo[key], id)
	return id
}

// Evidence is a random partial or full assignment.
func (n *Net) Evidence(r *rand.Rand) spn.VarSet {
	v := spn.VarSet{}
	p := r.Intn(5)
	for i := 0; i < n.NVars; i++ {
		if r.Intn(4) < p {
			v[i] = r.Intn(n.Card)
		}
	}
	return v
}

// LeafLog is the log-value of a leaf.
func (m M) LeafLog(v spn.VarSet) float64 {
	x, ok := v[m.Var]
	if !ok {
		return 0
	}
	switch m.Kind {
	case "ind":
		if x == m.Val {
			return 0
		}
		return math.Inf(-1)
	case "mult":
		return Log(m.Pr[x])
	}
	if m.Sigma == 0 {
		if x == int(m.Mu) {
			return 0
		}
		return math.Inf(-1)
	}
	d := (float64(x) - m.Mu) / m.Sigma
	return -d*d/2 - math.Log(m.Sigma) - 0.5*math.Log(2*math.Pi)
}

// LeafMax is the best log-value of a leaf.
func (m M) LeafMax(v spn.VarSet) float64 {
	if _, ok := v[m.Var]; ok {
		return m.LeafLog(v)
	}
	switch m.Kind {
	case "ind":
		return 0
	case "mult":
		b := math.Inf(-1)
		for _, p := range m.Pr {
			b = math.Max(b, Log(p))
		}
		return b
	}
	if m.Sigma == 0 {
		return 0
	}
	return -math.Log(m.Sigma) - 0.5*math.Log(2*math.Pi)
}

// Log is the logarithm with log 0 = -inf.
func Log(x float64) float64 {
	if x == 0 {
		return math.Inf(-1)
	}
	return math.Log(x)
}

// Lse is the logarithm of a sum of exponentials, computed naively around the maximum.
func Lse(xs []float64) float64 {
	m := math.Inf(-1)
	for _, x := range xs {
		m = math.Max(m, x)
	}
	if math.IsInf(m, -1) {
		return m
	}
	s := 0.0
	for _, x := range xs {
		s += math.Exp(x - m)
	}
	return m + math.Log(s)
}

// Values evaluates the network polynomial in log space for all nodes.
func (n *Net) Values(leaf func(i int, m M) float64) []float64 {
	v := make([]float64, len(n.Ms))
	for i, m := range n.Ms {
		switch m.Kind {
		case "sum":
			var xs []float64
			for j, c := range m.Ch {
				xs = append(xs, Log(m.W[j])+v[c])
			}
			v[i] = Lse(xs)
		case "product":
			for _, c := range m.Ch {
				v[i] += v[c]
			}
		default:
			v[i] = leaf(i, m)
		}
	}
	return v
}

// MaxValues evaluates the maximising network for all nodes.
func (n *Net) MaxValues(e spn.VarSet) []float64 {
	v := make([]float64, len(n.Ms))
	for i, m := range n.Ms {
		switch m.Kind {
		case "sum":
			v[i] = math.Inf(-1)
			for j, c := range m.Ch {
				v[i] = math.Max(v[i], Log(m.W[j])+v[c])
			}
		case "product":
			for _, c := range m.Ch {
				v[i] += v[c]
			}
		default:
			v[i] = m.LeafMax(e)
		}
	}
	return v
}

// Unchanged compares the real network with the model.
func (n *Net) Unchanged() string {
	for i, m := range n.Ms {
		ch := n.Ns[i].Ch()
		if len(ch) != len(m.Ch) {
			return fmt.Sprintf("node %d has %d children instead of %d", i, len(ch), len(m.Ch))
		}
		for j, c := range m.Ch {
			if ch[j] != n.Ns[c] {
				return fmt.Sprintf("child %d of node %d changed", j, i)
			}
		}
		if m.Kind == "sum" {
			w := n.Ns[i].(*spn.Sum).Weights()
			if len(w) != len(m.W) {
				return fmt.Sprintf("node %d has %d weights", i, len(w))
			}
			for j := range w {
				if w[j] != m.W[j] {
					return fmt.Sprintf("weight %d of node %d changed", j, i)
				}
			}
		}
		if m.Kind == "mult" {
			p := n.Ns[i].(*spn.Multinomial).Pr()
			for j := range p {
				if p[j] != m.Pr[j] {
					return fmt.Sprintf("leaf %d changed", i)
				}
			}
		}
		if m.Kind == "gauss" {
			a, b := n.Ns[i].(*spn.Gaussian).Params()
			if a != m.Mu || b != m.Sigma {
				return fmt.Sprintf("leaf %d changed", i)
			}
		}
	}
	return ""
}
