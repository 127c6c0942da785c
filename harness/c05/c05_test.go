package c05

import (
	"strings"
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

type key struct{ k, n, l int }

// The model: the tickets in use and the stored values.
func run(seed int64, steps int, r interface{ Intn(int) int }, trace *strings.Builder) string {
	s := spn.NewStorer()
	nodes := []spn.SPN{spn.NewSum(), spn.NewProduct(), spn.NewIndicator(0, 1), spn.NewMultinomial(1, []float64{0.5, 0.5}), spn.NewGaussianParams(2, 0, 1)}
	tk := map[int]bool{}
	vals := map[key]float64{}
	ever := 0
	pick := func() int { return r.Intn(ever+2) - 1 }
	inrange := func() int {
		if ever == 0 {
			return -1
		}
		return r.Intn(ever)
	}
	lg := func(f string, a ...interface{}) { trace.WriteString(vh.Sf(f, a...) + "; ") }
	audit := func() string {
		for k := -1; k <= ever+1; k++ {
			tab, ok := s.Table(k)
			if ok != tk[k] {
				return vh.Sf("Table(%d) reports %v", k, ok)
			}
			for n, nd := range nodes {
				any := false
				for l := 0; l < 3; l++ {
					w, e := vals[key{k, n, l}]
					any = any || e
					v, ok := s.Entry(k, nd, l)
					if ok != e || v != w {
						return vh.Sf("Entry(%d, node %d, %d) = %v,%v, expected %v,%v", k, n, l, v, ok, w, e)
					}
					if x := s.Exists(k, nd, l); x != e {
						return vh.Sf("Exists(%d, node %d, %d) = %v, expected %v", k, n, l, x, e)
					}
					if l == 0 {
						v, ok := s.Single(k, nd)
						if ok != e || v != w {
							return vh.Sf("Single(%d, node %d) = %v,%v, expected %v,%v", k, n, v, ok, w, e)
						}
					}
					if tk[k] {
						v, ok := tab.Entry(nd, l)
						if ok != e || v != w || tab.Exists(nd, l) != e {
							return vh.Sf("table %d Entry(node %d, %d) = %v,%v, expected %v,%v", k, n, l, v, ok, w, e)
						}
						if l == 0 {
							if v, ok := tab.Single(nd); ok != e || v != w {
								return vh.Sf("table %d Single(node %d) = %v,%v, expected %v,%v", k, n, v, ok, w, e)
							}
						}
					}
				}
				m, ok := s.Value(k, nd)
				if ok != any || s.ExistsSPN(k, nd) != any {
					return vh.Sf("Value(%d, node %d) present %v, ExistsSPN %v, expected %v", k, n, ok, s.ExistsSPN(k, nd), any)
				}
				for l, v := range m {
					if w, e := vals[key{k, n, l}]; !e || w != v {
						return vh.Sf("Value(%d, node %d)[%d] = %v", k, n, l, v)
					}
				}
				if tk[k] {
					m2, ok2 := tab.Value(nd)
					if ok2 != any || len(m2) != len(m) || tab.ExistsSPN(nd) != any {
						return vh.Sf("table %d Value(node %d) disagrees", k, n)
					}
				}
			}
		}
		return ""
	}
	clear := func(k int) {
		for q := range vals {
			if q.k == k {
				delete(vals, q)
			}
		}
	}
	for i := 0; i < steps; i++ {
		switch op := r.Intn(20); {
		case op < 4:
			k := s.NewTicket()
			lg("%d=NewTicket", k)
			if tk[k] {
				return vh.Sf("NewTicket returned %d, which is in use", k)
			}
			tk[k] = true
			clear(k)
			if k+1 > ever {
				ever = k + 1
			}
		case op < 10:
			k, n, l, v := pick(), r.Intn(len(nodes)), r.Intn(3), float64(1+r.Intn(1000))
			single := r.Intn(2) == 0
			if single {
				l = 0
			}
			via := r.Intn(2) == 0 && tk[k]
			lg("Store(%d,n%d,%d,%v,%v,%v)", k, n, l, v, single, via)
			var ok bool
			switch {
			case via && single:
				tab, _ := s.Table(k)
				ok = tab.StoreSingle(nodes[n], v)
			case via:
				tab, _ := s.Table(k)
				ok = tab.Store(nodes[n], l, v)
			case single:
				ok = s.StoreSingle(k, nodes[n], v)
			default:
				ok = s.Store(k, nodes[n], l, v)
			}
			if ok != tk[k] {
				return vh.Sf("store under ticket %d reports %v", k, ok)
			}
			if ok {
				vals[key{k, n, l}] = v
			}
		case op < 12:
			k := pick()
			lg("Delete(%d)", k)
			s.Delete(k)
			delete(tk, k)
			clear(k)
		case op < 15:
			k := inrange()
			if k < 0 {
				continue
			}
			lg("Reset(%d)", k)
			if q := s.Reset(k); q != k {
				return vh.Sf("Reset(%d) returned %d", k, q)
			}
			tk[k] = true
			clear(k)
		case op < 19:
			var ks []int
			for j := r.Intn(4); j > 0; j-- {
				if k := inrange(); k >= 0 {
					ks = append(ks, k)
				}
			}
			lg("ResetTickets(%v)", ks)
			s.ResetTickets(ks...)
			for _, k := range ks {
				tk[k] = true
				clear(k)
			}
		default:
			lg("Purge")
			s.Purge()
			tk = map[int]bool{}
			vals = map[key]float64{}
			ever = 0
		}
		if m := audit(); m != "" {
			return m
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(1500, 40000); it++ {
			steps := 3 + r.Intn(25)
			var tr strings.Builder
			h.Case(steps > 6, vh.Sf("random operation sequence %d of %d steps (seed %d)", it, steps, vh.Seed()), func() string {
				if m := run(int64(it), steps, r, &tr); m != "" {
					return m + " after " + tr.String()
				}
				return ""
			})
		}
	})
}
