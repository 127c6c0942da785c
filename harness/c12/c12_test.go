package c12

import (
	"math/rand"
	"sort"
	"testing"

	"github.com/RenatoGeh/gospn/utils"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

type op struct{ k, a, b int } // 0 make, 1 find, 2 union, 3 list

// run performs a history on real nodes next to a naive partition.
func run(ops []op, ids []int, full bool) string {
	var ns []*utils.UFNode
	var c []int
	// representatives are tracked from the results: finding one would flatten the trees
	rep := map[int]*utils.UFNode{}
	same := func() string {
		for i := range ns {
			for j := 0; j < i; j++ {
				if (utils.Find(ns[i]) == utils.Find(ns[j])) != (c[i] == c[j]) {
					return vh.Sf("elements %d and %d: same representative %v, connected %v", i, j, c[i] != c[j], c[i] == c[j])
				}
			}
		}
		return ""
	}
	list := func(i int) string {
		rep := rep[c[i]]
		if rep == nil {
			return vh.Sf("no representative of %d", i)
		}
		ok := false
		var want []int
		for j := range ns {
			if c[j] == c[i] {
				want = append(want, ids[j])
				ok = ok || ns[j] == rep
			}
		}
		if !ok {
			return vh.Sf("the representative of %d is not in its class", i)
		}
		got := append([]int{}, utils.UFVarids(rep)...)
		sort.Ints(got)
		sort.Ints(want)
		if vh.Sf("%v", got) != vh.Sf("%v", want) {
			return vh.Sf("class of %d lists %v instead of %v", i, got, want)
		}
		return ""
	}
	for t, o := range ops {
		switch o.k {
		case 0:
			i := len(ns)
			ns, c = append(ns, utils.MakeSet(ids[i])), append(c, i)
			rep[i] = ns[i]
			if utils.Find(ns[i]) != ns[i] {
				return vh.Sf("step %d: a new element is not its own representative", t)
			}
		case 1:
			if f := utils.Find(ns[o.a]); f != rep[c[o.a]] {
				return vh.Sf("step %d: find does not return the representative of %d", t, o.a)
			}
		case 2:
			ra, rb := rep[c[o.a]], rep[c[o.b]]
			r, w := utils.Union(ns[o.a], ns[o.b])
			if ra == rb {
				if r != nil || w != -1 {
					return vh.Sf("step %d: union of connected elements %d %d reports %d", t, o.a, o.b, w)
				}
				break
			}
			if r == nil || (w != 1 && w != 2) || (w == 1 && r != ra) || (w == 2 && r != rb) {
				return vh.Sf("step %d: union of %d and %d returns the wrong representative (code %d)", t, o.a, o.b, w)
			}
			f, g := c[o.a], c[o.b]
			for i := range c {
				if c[i] == g {
					c[i] = f
				}
			}
			rep[f] = r
		case 3:
			if e := list(o.a); e != "" {
				return vh.Sf("step %d: ", t) + e
			}
		}
		if full && t%5 == 0 || t == len(ops)-1 {
			if e := same(); e != "" {
				return vh.Sf("step %d: ", t) + e
			}
		}
	}
	for i := range ns {
		if e := list(i); e != "" {
			return e
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) { all(h, vh.Rand()) })
}

func all(h *vh.T, r *rand.Rand) {
	// all histories of up to 4 unions over 4 elements
	n := 4
	var rec func(ops []op, d int)
	L := vh.N(3, 5)
	ids := []int{7, 3, 7, 0}
	rec = func(ops []op, d int) {
		h.Case(len(ops) > 4, vh.Sf("exhaustive %v", ops), func() string { return run(ops, ids, false) })
		if d == L {
			return
		}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				rec(append(append([]op{}, ops...), op{2, a, b}), d+1)
			}
		}
	}
	rec([]op{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, 0)
	for it := 0; it < vh.N(1500, 20000); it++ {
		o, ids := history(r)
		h.Case(len(o) > 2, vh.Sf("history %v ids %v", o, ids), func() string { return run(o, ids, it%2 == 0) })
	}
}

func history(r *rand.Rand) ([]op, []int) {
	var h []op
	var ids []int
	m := 1 + r.Intn(40)
	if r.Intn(3) == 0 {
		m = 1 + r.Intn(8)
	}
	mode := r.Intn(3)
	for len(ids) < m || r.Intn(2*m) != 0 {
		k := r.Intn(8)
		n := len(ids)
		switch {
		case n == 0 || (n < m && (mode == 0 || k < 3)):
			h, ids = append(h, op{0, 0, 0}), append(ids, r.Intn(50))
		case k == 7:
			h = append(h, op{3, r.Intn(n), 0})
		case k == 6:
			h = append(h, op{1, r.Intn(n), 0})
		default:
			h = append(h, op{2, r.Intn(n), r.Intn(n)})
		}
	}
	return h, ids
}
