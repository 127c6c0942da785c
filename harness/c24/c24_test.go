package c24

import (
	"testing"

	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// order is the documented sequence of visits: the pending nodes are kept in order of discovery and the first
// (breadth first) or last (depth first) is visited next.
func order(n *lib.Net, ans map[int]int, depth bool) []int {
	var seq []int
	known := map[int]bool{n.Root: true}
	pend := []int{n.Root}
	for len(pend) > 0 {
		p := 0
		if depth {
			p = len(pend) - 1
		}
		u := pend[p]
		pend = append(append([]int{}, pend[:p]...), pend[p+1:]...)
		seq = append(seq, u)
		if ans[u] > 0 {
			break
		}
		if ans[u] < 0 {
			continue
		}
		for _, c := range n.Ms[u].Ch {
			if !known[c] {
				known[c] = true
				pend = append(pend, c)
			}
		}
	}
	return seq
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(12000, 300000); it++ {
			n := lib.Gen(r, lib.Opt{LeafRoot: true, Unnorm: true, Valid: it%4 == 3, MaxLeaves: 5, MaxInner: 10})
			if it%5 == 0 {
				n.Root = r.Intn(len(n.Ms))
			}
			ans := map[int]int{}
			if it%2 == 0 {
				for i := range n.Ms {
					switch r.Intn(8) {
					case 0:
						ans[i] = -1 - r.Intn(2)
					case 1:
						if it%4 == 0 {
							ans[i] = 1 + r.Intn(2)
						}
					}
				}
			}
			reach := n.Reach()
			h.Case(len(reach) > 2, vh.Sf("%s; answers %v", n, ans), func() string {
				for _, depth := range []bool{false, true} {
					var got []int
					f := func(s spn.SPN) int {
						i := n.Index(s)
						got = append(got, i)
						if len(got) > 10*len(n.Ms) {
							return 1
						}
						return ans[i]
					}
					name := "BreadthFirst"
					if depth {
						name = "DepthFirst"
						spn.DepthFirst(n.R(), f)
					} else {
						spn.BreadthFirst(n.R(), f)
					}
					if want := order(n, ans, depth); !same(got, want) {
						return vh.Sf("%s visited %v instead of %v", name, got, want)
					}
				}
				var c [3]int
				hg := make([]int, len(n.Ms))
				for i, m := range n.Ms {
					for _, c := range m.Ch {
						if hg[c]+1 > hg[i] {
							hg[i] = hg[c] + 1
						}
					}
					if !reach[i] {
						continue
					}
					switch m.Kind {
					case "sum":
						c[0]++
					case "product":
						c[1]++
					default:
						c[2]++
					}
				}
				if s, p, l := spn.CountNodes(n.R()); s != c[0] || p != c[1] || l != c[2] {
					return vh.Sf("CountNodes returned %d %d %d instead of %v", s, p, l, c)
				}
				if g := spn.ComputeHeight(n.R()); g != hg[n.Root] {
					return vh.Sf("ComputeHeight returned %d instead of %d", g, hg[n.Root])
				}
				if hg[n.Root] <= 8 {
					if g := n.R().Height(); g != hg[n.Root] {
						return vh.Sf("Height returned %d instead of %d", g, hg[n.Root])
					}
				}
				return n.Unchanged()
			})
		}
	})
}
