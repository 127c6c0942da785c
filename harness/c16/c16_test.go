package c16

import (
	"math"
	"math/rand"
	"strings"
	"testing"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/score"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/lib"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

type pair struct{ p, e int }

const K = 4

func wrong(s *score.S) []pair {
	var r []pair
	for _, l := range strings.Split(s.String(), "\n") {
		var p pair
		if strings.HasPrefix(l, "  Expected ") {
			f := strings.Fields(strings.NewReplacer(",", " ", ".", " ").Replace(l))
			p.e, p.p = atoi(f[1]), atoi(f[3])
			r = append(r, p)
		}
	}
	return r
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = 10*n + int(c-'0')
	}
	return n
}

// same compares a score with the list of what was registered
func same(s *score.S, l []pair, ordered bool) string {
	var h int
	var m [K][K]int
	var w []pair
	for _, p := range l {
		if p.p == p.e {
			h++
		} else {
			w = append(w, p)
		}
		m[p.e][p.p]++
	}
	if s.Hits() != h || s.Misses() != len(l)-h || s.Total() != len(l) {
		return vh.Sf("hits %d misses %d total %d after registering %v", s.Hits(), s.Misses(), s.Total(), l)
	}
	M := s.ConfusionMatrix(K)
	if len(M) != K {
		return "wrong confusion matrix size"
	}
	for i := range M {
		if len(M[i]) != K {
			return "wrong confusion matrix size"
		}
		for j := range M[i] {
			if M[i][j] != m[i][j] {
				return vh.Sf("confusion matrix %v instead of %v after registering %v", M, m, l)
			}
		}
	}
	if ordered {
		g := wrong(s)
		if len(g) != len(w) {
			return vh.Sf("wrong predictions %v instead of %v", g, w)
		}
		for i := range g {
			if g[i] != w[i] {
				return vh.Sf("wrong predictions %v instead of %v", g, w)
			}
		}
	}
	return ""
}

func history(r *rand.Rand) string {
	var ss []*score.S
	var ms [][]pair
	tr := ""
	for op := 0; op < 4+r.Intn(40); op++ {
		pick := func() int { return r.Intn(len(ss)) }
		switch k := r.Intn(10); {
		case k == 0 || len(ss) == 0:
			ss, ms = append(ss, score.NewScore()), append(ms, nil)
			tr += vh.Sf("s%d=new; ", len(ss)-1)
		case k <= 5:
			i := pick()
			for n := 1 + r.Intn(3); n > 0; n-- {
				p := pair{r.Intn(K), r.Intn(K)}
				ss[i].Register(p.p, p.e)
				ms[i] = append(append([]pair{}, ms[i]...), p)
				tr += vh.Sf("s%d.register%v; ", i, p)
			}
		case k <= 7:
			i, j := pick(), pick()
			ss[i].Merge(ss[j])
			ms[i] = append(append([]pair{}, ms[i]...), ms[j]...)
			tr += vh.Sf("s%d.merge(s%d); ", i, j)
		case k == 8:
			i, j := pick(), pick()
			ss = append(ss, score.Add(ss[i], ss[j]))
			ms = append(ms, append(append([]pair{}, ms[i]...), ms[j]...))
			tr += vh.Sf("s%d=add(s%d,s%d); ", len(ss)-1, i, j)
		default:
			i := pick()
			ss[i].Clear()
			ms[i] = nil
			tr += vh.Sf("s%d.clear; ", i)
		}
		for i := range ss {
			if e := same(ss[i], ms[i], true); e != "" {
				return vh.Sf("%ss%d: %s", tr, i, e)
			}
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(3000, 100000); it++ {
			seed := r.Int63()
			h.Case(true, vh.Sf("operation history %d", seed), func() string { return history(rand.New(rand.NewSource(seed))) })
		}
		for it := 0; it < vh.N(250, 8000); it++ {
			n := lib.Gen(r, lib.Opt{Valid: true, NoGauss: true})
			if n.Card > K || n.NVars < 2 {
				continue
			}
			v := r.Intn(n.NVars)
			var T spn.Dataset
			var L []int
			for i := 0; i < []int{0, 1, 2, 5, 9, 10, 11, 23}[r.Intn(8)]; i++ {
				m := map[int]int{}
				for u := 0; u < n.NVars; u++ {
					m[u] = r.Intn(n.Card)
				}
				T, L = append(T, m), append(L, r.Intn(n.Card))
			}
			var post []pair
			tie := false
			for i, I := range T {
				best, arg := math.Inf(-1), 0
				for c := 0; c < n.Card; c++ {
					e := spn.VarSet{}
					for a, b := range I {
						e[a] = b
					}
					e[v] = c
					x := n.Values(func(_ int, m lib.M) float64 { return m.LeafLog(e) })[n.Root]
					if math.IsInf(x, -1) || math.Abs(x-best) < 1e-7 {
						tie = true
					}
					if x > best {
						best, arg = x, c
					}
				}
				post = append(post, pair{arg, L[i]})
			}
			cv := &learn.Variable{Varid: v, Categories: n.Card}
			k := 1 + r.Intn(4)
			h.Case(len(T) > 0, vh.Sf("network %s, class X%d, data %v, labels %v, %d jobs", n, v, T, L, k), func() string {
				cp := vh.Sf("%v", T)
				s := score.NewScore()
				s.Evaluate(T, L, n.R(), cv)
				if s.Total() != len(T) || s.Hits()+s.Misses() != len(T) {
					return vh.Sf("Evaluate registered %d of %d instances", s.Total(), len(T))
				}
				M := s.ConfusionMatrix(K)
				for e := range M {
					c := 0
					for _, x := range M[e] {
						c += x
					}
					for _, l := range L {
						if l == e {
							c--
						}
					}
					if c != 0 {
						return vh.Sf("Evaluate registered a wrong number of instances of label %d", e)
					}
				}
				if vh.Sf("%v", T) != cp {
					return "Evaluate changed the data"
				}
				if tie {
					return ""
				}
				s = score.NewScore()
				s.EvaluatePosterior(T, L, n.R(), cv)
				if e := same(s, post, true); e != "" {
					return "EvaluatePosterior: " + e
				}
				if vh.Sf("%v", T) != cp {
					return "EvaluatePosterior changed the data"
				}
				s = score.NewScore()
				s.EvaluatePosteriorConc(T, L, n.R(), cv, k)
				if e := same(s, post, false); e != "" {
					return "EvaluatePosteriorConc: " + e
				}
				return ""
			})
		}
	})
}
