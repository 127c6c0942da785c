package c11

import (
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"testing"

	gio "github.com/RenatoGeh/gospn/io"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func bits(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a == 0 && b == 0)
}

func list(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bits(a[i], b[i]) {
			return false
		}
	}
	return true
}

func ints(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	a, b = append([]int{}, a...), append([]int{}, b...)
	sort.Ints(a)
	sort.Ints(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func kind(s spn.SPN) string {
	switch s.(type) {
	case *spn.Sum:
		return "sum"
	case *spn.Product:
		return "product"
	case *spn.Indicator:
		return "indicator"
	case *spn.Multinomial:
		return "multinomial"
	case *spn.Gaussian:
		return "gaussian"
	}
	return "?"
}

// compare finds a difference between a network and its copy; to and from pair up their nodes.
func compare(a, b spn.SPN, to, from map[spn.SPN]spn.SPN) string {
	if x, ok := to[a]; ok {
		if x != b {
			return "a shared node became several"
		}
		return ""
	}
	if _, ok := from[b]; ok {
		return "several nodes became one"
	}
	to[a], from[b] = b, a
	if a == b {
		return "the loaded network shares nodes with the original"
	}
	if kind(a) != kind(b) || a.Type() != b.Type() || a.SubType() != b.SubType() {
		return vh.Sf("a %s became a %s", kind(a), kind(b))
	}
	switch s := a.(type) {
	case *spn.Sum:
		if w := b.(*spn.Sum).Weights(); !list(s.Weights(), w) {
			return vh.Sf("the weights %v became %v", s.Weights(), w)
		}
	case *spn.Multinomial:
		z := b.(*spn.Multinomial)
		if !list(s.Pr(), z.Pr()) {
			return vh.Sf("the distribution %v became %v", s.Pr(), z.Pr())
		}
		if s.Mean() != z.Mean() || s.StdDev() != z.StdDev() {
			return "the moments of a multinomial changed"
		}
	case *spn.Gaussian:
		m, d := s.Params()
		n, e := b.(*spn.Gaussian).Params()
		if !bits(m, n) || !bits(d, e) {
			return vh.Sf("the Gaussian (%v, %v) became (%v, %v)", m, d, n, e)
		}
	}
	if len(a.Ch()) == 0 && a.Type() == "leaf" {
		if !ints(a.Sc(), b.Sc()) {
			return vh.Sf("the leaf's scope %v became %v", a.Sc(), b.Sc())
		}
		v := a.Sc()[0]
		for x := -1; x < 5; x++ {
			e := spn.VarSet{v: x}
			if x < 0 {
				if kind(a) == "multinomial" {
					continue
				}
				e = spn.VarSet{v: -7, v + 1: 0}
			}
			if kind(a) == "multinomial" && x >= len(a.(*spn.Multinomial).Pr()) {
				continue
			}
			if s := answers(a, b, e); s != "" {
				return s
			}
		}
		if s := answers(a, b, spn.VarSet{}); s != "" {
			return s
		}
	}
	if len(a.Ch()) != len(b.Ch()) {
		return vh.Sf("a node with %d children has %d", len(a.Ch()), len(b.Ch()))
	}
	for i, c := range a.Ch() {
		if s := compare(c, b.Ch()[i], to, from); s != "" {
			return s
		}
	}
	return ""
}

func answers(a, b spn.SPN, e spn.VarSet) string {
	if x, y := a.Value(e), b.Value(e); !bits(x, y) {
		return vh.Sf("the value under %v was %v and is %v", e, x, y)
	}
	if x, y := a.Max(e), b.Max(e); !bits(x, y) {
		return vh.Sf("the maximum under %v was %v and is %v", e, x, y)
	}
	s, x := a.ArgMax(e)
	t, y := b.ArgMax(e)
	if !bits(x, y) || len(s) != len(t) {
		return vh.Sf("the MAP state under %v was %v (%v) and is %v (%v)", e, s, x, t, y)
	}
	for k, v := range s {
		if w, ok := t[k]; !ok || v != w {
			return vh.Sf("the MAP state under %v was %v and is %v", e, s, t)
		}
	}
	return ""
}

func check(n *lib.Net, dir string, file bool, r *rand.Rand) string {
	var z spn.SPN
	var raw []byte
	if file {
		p := filepath.Join(dir, "net.spn")
		if err := gio.SaveSPN(p, n.R()); err != nil {
			return vh.Sf("SaveSPN: %v", err)
		}
		var err error
		if z, err = gio.LoadSPN(p); err != nil {
			return vh.Sf("LoadSPN: %v", err)
		}
	} else {
		raw = spn.Marshal(n.R())
		keep := append([]byte{}, raw...)
		z = spn.Unmarshal(raw)
		if string(keep) != string(raw) {
			return "Unmarshal changed its argument"
		}
	}
	if s := n.Unchanged(); s != "" {
		return "saving changed the network: " + s
	}
	if s := compare(n.R(), z, map[spn.SPN]spn.SPN{}, map[spn.SPN]spn.SPN{}); s != "" {
		return s
	}
	if raw != nil { // again, and the copy of the copy
		y := spn.Unmarshal(raw)
		if s := compare(n.R(), y, map[spn.SPN]spn.SPN{}, map[spn.SPN]spn.SPN{}); s != "" {
			return "read again: " + s
		}
		if s := compare(z, y, map[spn.SPN]spn.SPN{}, map[spn.SPN]spn.SPN{}); s != "" {
			return "read twice: " + s
		}
		y = spn.Unmarshal(spn.Marshal(z))
		if s := compare(n.R(), y, map[spn.SPN]spn.SPN{}, map[spn.SPN]spn.SPN{}); s != "" {
			return "saved twice: " + s
		}
	}
	for i := 0; i < 3; i++ {
		e := n.Evidence(r)
		if x, y := spn.Inference(n.R(), e), spn.Inference(z, e); !bits(x, y) {
			return vh.Sf("Inference under %v gave %v and gives %v", e, x, y)
		}
	}
	z = spn.Unmarshal(spn.Marshal(n.R())) // nothing was asked of this one yet
	if x, y := spn.ComputeScope(n.R()), spn.ComputeScope(z); !ints(x, y) {
		return vh.Sf("ComputeScope gave %v and gives %v", x, y)
	}
	if x, y := spn.Complete(n.R()), spn.Complete(z); x != y {
		return vh.Sf("Complete gave %v and gives %v", x, y)
	}
	if x, y := spn.Decomposable(n.R()), spn.Decomposable(z); x != y {
		return vh.Sf("Decomposable gave %v and gives %v", x, y)
	}
	return ""
}

// number is a weight that needs many digits, is tiny, huge, whole or zero.
func number(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(r.Intn(5))
	case 2:
		return r.Float64() * math.Pow(10, -float64(r.Intn(300)))
	case 3:
		return r.Float64() * math.Pow(10, float64(r.Intn(300)))
	case 4:
		return math.Float64frombits(uint64(r.Intn(9)) + 1)
	}
	return r.Float64()
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		dir, err := os.MkdirTemp("", "c11")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		run := func(n *lib.Net, file bool) {
			h.Case(len(n.Ms) > 1, vh.Sf("%v; file %v", n, file), func() string { return check(n, dir, file, r) })
		}
		for it := 0; it < vh.N(2000, 40000); it++ {
			o := lib.Opt{LeafRoot: true, ZeroW: it%3 == 0, ZeroP: it%4 == 1, Unnorm: it%2 == 0, Valid: it%5 == 4}
			if it%40 == 39 {
				o.MaxLeaves, o.MaxInner = 20, 14
			}
			run(lib.Gen(r, o), it%10 == 0)
		}
		// weights and parameters of every magnitude, large variable numbers, single children, repeated children
		for it := 0; it < vh.N(600, 8000); it++ {
			n := &lib.Net{NVars: 6, Card: 3}
			nl := 1 + r.Intn(5)
			for i := 0; i < nl; i++ {
				v := r.Intn(6)
				if r.Intn(4) == 0 {
					v = 1000 + r.Intn(1<<30)
				}
				switch r.Intn(4) {
				case 0:
					n.Add(lib.M{Kind: "ind", Var: v, Val: r.Intn(300)})
				case 1:
					s := 1.0
					if r.Intn(2) == 0 {
						s = -1
					}
					n.Add(lib.M{Kind: "gauss", Var: v, Mu: s * number(r), Sigma: number(r)})
				default:
					p := make([]float64, 3+r.Intn(3))
					for j := range p {
						p[j] = r.Float64() * math.Pow(10, -float64(r.Intn(40)))
					}
					n.Add(lib.M{Kind: "mult", Var: v, Pr: p})
				}
			}
			for i := 0; i < r.Intn(5); i++ {
				k := 1 + r.Intn(4)
				if r.Intn(30) == 0 {
					k = 1 + r.Intn(200)
				}
				var ch []int
				var w []float64
				for j := 0; j < k; j++ {
					ch = append(ch, r.Intn(len(n.Ms)))
					w = append(w, number(r))
				}
				if r.Intn(3) == 0 {
					n.Add(lib.M{Kind: "product", Ch: ch})
				} else {
					n.Add(lib.M{Kind: "sum", Ch: ch, W: w})
				}
			}
			run(n, it%20 == 0)
		}
		// long chains: more nodes than fit in one byte
		for it := 0; it < vh.N(3, 20); it++ {
			n := &lib.Net{NVars: 2, Card: 3}
			a := n.Add(lib.M{Kind: "ind", Var: 0, Val: 1})
			b := n.Add(lib.M{Kind: "mult", Var: 1, Pr: []float64{0.2, 0.3, 0.5}})
			for i := 0; i < 300+r.Intn(200); i++ {
				if r.Intn(2) == 0 {
					a = n.Add(lib.M{Kind: "product", Ch: []int{a}})
				} else {
					a = n.Add(lib.M{Kind: "sum", Ch: []int{a, b}, W: []float64{r.Float64(), r.Float64()}})
				}
			}
			run(n, false)
		}
	})
}
