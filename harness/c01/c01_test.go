package c01

import (
	"testing"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

type sorter func(spn.SPN, common.Collection) common.Collection

func check(n *lib.Net, name string, f sorter, coll string) string {
	var c common.Collection
	switch coll {
	case "queue":
		c = &common.Queue{}
	case "stack":
		c = &common.Stack{}
	}
	r := f(n.R(), c)
	if c != nil && r != c {
		return name + " returned another collection"
	}
	if r == nil {
		return name + " returned nil"
	}
	var seq []int
	for !r.Empty() {
		s, ok := r.Take().(spn.SPN)
		if !ok {
			return name + " listed something else than a node"
		}
		seq = append(seq, n.Index(s))
	}
	if coll == "stack" {
		for i, j := 0, len(seq)-1; i < j; i, j = i+1, j-1 {
			seq[i], seq[j] = seq[j], seq[i]
		}
	}
	reach := n.Reach()
	pos := map[int]int{}
	for p, i := range seq {
		if _, ok := pos[i]; ok {
			return vh.Sf("%s into %s listed node %d twice: %v", name, coll, i, seq)
		}
		if !reach[i] {
			return vh.Sf("%s into %s listed unreachable node %d: %v", name, coll, i, seq)
		}
		pos[i] = p
		for _, ch := range n.Ms[i].Ch {
			if q, ok := pos[ch]; !ok || q >= p {
				return vh.Sf("%s into %s listed node %d before its child %d: %v", name, coll, i, ch, seq)
			}
		}
	}
	if len(seq) != len(reach) {
		return vh.Sf("%s into %s listed %d of %d nodes: %v", name, coll, len(seq), len(reach), seq)
	}
	return n.Unchanged()
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		tf := func(g spn.SPN, c common.Collection) common.Collection {
			return spn.TopSortTarjanFunc(g, c, func(spn.SPN) bool { return true })
		}
		sorts := []struct {
			n string
			f sorter
		}{{"TopSortTarjan", spn.TopSortTarjan}, {"TopSortTarjanRec", spn.TopSortTarjanRec}, {"TopSortTarjanFunc", tf}, {"TopSortDFS", spn.TopSortDFS}, {"PostOrder", spn.PostOrder}}
		for it := 0; it < vh.N(1500, 60000); it++ {
			o := lib.Opt{LeafRoot: true, MaxLeaves: 5, MaxInner: 3 + r.Intn(10)}
			if it%5 == 4 {
				o = lib.Opt{Valid: true}
			}
			if it%50 == 49 {
				o.MaxInner, o.MaxLeaves = 60, 30
			}
			n := lib.Gen(r, o)
			for _, s := range sorts {
				for _, c := range []string{"queue", "stack", "none"} {
					h.Case(len(n.Ms) > 3, s.n+" "+c+" "+n.String(), func() string { return check(n, s.n, s.f, c) })
				}
			}
			// TopSortTarjanFunc calls f on every node as it is listed and stops when f returns false
			stop := r.Intn(len(n.Ms) + 1)
			h.Case(len(n.Ms) > 3, vh.Sf("TopSortTarjanFunc stop %d %s", stop, n), func() string {
				var calls []spn.SPN
				q := &common.Queue{}
				spn.TopSortTarjanFunc(n.R(), q, func(s spn.SPN) bool {
					calls = append(calls, s)
					return len(calls) <= stop
				})
				want := stop + 1
				if k := len(n.Reach()); want > k {
					want = k
				}
				if len(calls) != want || q.Size() != want {
					return vh.Sf("f called %d times, %d nodes listed, expected %d", len(calls), q.Size(), want)
				}
				for _, c := range calls {
					if q.Dequeue() != c {
						return "the nodes listed are not those f was called on"
					}
				}
				return ""
			})
		}
	})
}
