package c14

import (
	"math"
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/sys"
	"github.com/RenatoGeh/gospn/utils/cluster"
	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func copyI(M [][]int) [][]int {
	N := make([][]int, len(M))
	for i := range M {
		N[i] = append([]int{}, M[i]...)
	}
	return N
}

func eqI(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// parts checks that the clusters have each instance once, unchanged, and returns the cluster of each instance.
func parts(G []map[int][]int, M [][]int) ([]int, string) {
	c := make([]int, len(M))
	for i := range c {
		c[i] = -1
	}
	for g, m := range G {
		for i, r := range m {
			if i < 0 || i >= len(M) {
				return nil, vh.Sf("cluster %d has an instance %d that is not in the data", g, i)
			}
			if c[i] >= 0 {
				return nil, vh.Sf("instance %d is in clusters %d and %d", i, c[i], g)
			}
			c[i] = g
			if !eqI(r, M[i]) {
				return nil, vh.Sf("instance %d is %v in the cluster, want %v", i, r, M[i])
			}
		}
	}
	for i := range c {
		if c[i] < 0 {
			return nil, vh.Sf("instance %d is in no cluster", i)
		}
	}
	return c, ""
}

func toData(M [][]int, vars []int) []map[int]int {
	D := make([]map[int]int, len(M))
	for i := range M {
		D[i] = make(map[int]int)
		for j, v := range M[i] {
			D[i][vars[j]] = v
		}
	}
	return D
}

func dist(a, b []int) float64 {
	s := 0.0
	for i := range a {
		d := float64(a[i] - b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

// comps numbers the components of the instances chained by steps of at most eps.
func comps(M [][]int, eps float64) []int {
	c := make([]int, len(M))
	for i := range c {
		c[i] = -1
	}
	k := 0
	for i := range M {
		if c[i] >= 0 {
			continue
		}
		st := []int{i}
		c[i] = k
		for len(st) > 0 {
			p := st[len(st)-1]
			st = st[:len(st)-1]
			for q := range M {
				if c[q] < 0 && dist(M[p], M[q]) <= eps {
					c[q] = k
					st = append(st, q)
				}
			}
		}
		k++
	}
	return c
}

func inComps(c, comp []int, eps float64, mp int) string {
	for i := range c {
		for j := range c {
			if mp <= 1 && c[i] != c[j] && comp[i] == comp[j] {
				return vh.Sf("instances %d and %d are in different clusters although a chain of steps <= %v connects them and one neighbour is enough", i, j, eps)
			}
			if c[i] == c[j] && comp[i] != comp[j] {
				return vh.Sf("instances %d and %d are joined although no chain of steps <= %v connects them", i, j, eps)
			}
		}
	}
	return ""
}

// bags checks the dataset form by multiset: every instance of the data as often as it occurs; it returns for each
// distinct row the clusters it is in.
func bags(C [][]map[int]int, D []map[int]int) string {
	n := 0
	used := make([]bool, len(D))
	for g := range C {
		for _, I := range C[g] {
			n++
			ok := false
			for i := range D {
				if used[i] || len(I) != len(D[i]) {
					continue
				}
				same := true
				for v, x := range D[i] {
					if y, in := I[v]; !in || y != x {
						same = false
						break
					}
				}
				if same {
					used[i], ok = true, true
					break
				}
			}
			if !ok {
				return vh.Sf("cluster %d has %v, which is not an instance of the data (or too often)", g, I)
			}
		}
	}
	if n != len(D) {
		return vh.Sf("%d instances in the clusters, want %d", n, len(D))
	}
	return ""
}

func sameData(a, b []map[int]int) bool {
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for k, v := range a[i] {
			if w, ok := b[i][k]; !ok || w != v {
				return false
			}
		}
	}
	return true
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		sys.Verbose = false
		for it := 0; it < vh.N(800, 8000); it++ {
			n, m, cat := 1+r.Intn(14), 1+r.Intn(4), 1+r.Intn(5)
			if it%7 == 0 {
				n = 20 + r.Intn(20)
			}
			if it%5 == 0 {
				cat = 60
			}
			M := make([][]int, n)
			for i := range M {
				M[i] = make([]int, m)
				for j := range M[i] {
					M[i][j] = r.Intn(cat)
				}
			}
			if it%4 == 0 && n > 2 {
				M[n-1] = append([]int{}, M[0]...)
			}
			vars := make([]int, m)
			for j, v := range rand.New(rand.NewSource(int64(it))).Perm(3*m + 2)[:m] {
				vars[j] = v
			}
			k := 1 + r.Intn(n)
			if k > 5 {
				k = 1 + k%5
			}
			D := toData(M, vars)
			M0, D0 := copyI(M), toData(M, vars)
			desc := vh.Sf("data %v variables %v k %d", M, vars, k)
			h.Case(n > 1, "KMeans "+desc, func() string {
				G := cluster.KMeans(k, M)
				if len(G) != k {
					return vh.Sf("%d clusters, want %d", len(G), k)
				}
				_, s := parts(G, M0)
				if s == "" && !eqRows(M, M0) {
					s = "the data were changed"
				}
				return s
			})
			h.Case(n > 1, "KMeansData "+desc, func() string {
				G := cluster.KMeansData(k, D)
				if len(G) != k {
					return vh.Sf("%d clusters, want %d", len(G), k)
				}
				// columns in any order, the same for all instances
				seen := make([]bool, n)
				cnt := 0
				for _, g := range G {
					for i, row := range g {
						if i < 0 || i >= n || seen[i] || len(row) != m {
							return vh.Sf("instance %d is not there once: %v", i, G)
						}
						seen[i] = true
						cnt++
					}
				}
				if cnt != n {
					return vh.Sf("%d instances in the clusters, want %d", cnt, n)
				}
				all := make([][]int, n)
				for _, g := range G {
					for i, row := range g {
						all[i] = row
					}
				}
				usedc := make([]bool, m)
				for c := 0; c < m; c++ {
					f := -1
					for j := 0; j < m && f < 0; j++ {
						if usedc[j] {
							continue
						}
						f = j
						for i := range all {
							if all[i][c] != M0[i][j] {
								f = -1
								break
							}
						}
					}
					if f < 0 {
						return vh.Sf("column %d of the clustered instances %v is no variable of the data", c, all)
					}
					usedc[f] = true
				}
				if !sameData(D, D0) {
					return "the data were changed"
				}
				return ""
			})
			h.Case(n > 1, "KMeansF "+desc, func() string {
				X := make([][]float64, n)
				for i := range M {
					for _, v := range M[i] {
						X[i] = append(X[i], float64(v)+0.25)
					}
				}
				G := cluster.KMeansF(k, X, nil)
				if len(G) != k {
					return vh.Sf("%d clusters, want %d", len(G), k)
				}
				cnt := 0
				for _, g := range G {
					for i, row := range g {
						cnt++
						if i < 0 || i >= n || len(row) != m {
							return vh.Sf("bad instance %d: %v", i, row)
						}
						for j := range row {
							if row[j] != float64(M0[i][j])+0.25 {
								return vh.Sf("instance %d is %v, want %v + 0.25", i, row, M0[i])
							}
						}
						delete(g, i)
						for _, g2 := range G {
							if _, in := g2[i]; in {
								return vh.Sf("instance %d is in two clusters", i)
							}
						}
					}
				}
				if cnt != n {
					return vh.Sf("%d instances in the clusters, want %d", cnt, n)
				}
				return ""
			})
			h.Case(n > 1, "KMeansFData "+desc, func() string {
				G := cluster.KMeansFData(k, D)
				seen := make(map[int]bool)
				for _, g := range G {
					for i, row := range g {
						if i < 0 || i >= n || seen[i] || len(row) != m {
							return vh.Sf("instance %d is not there once: %v", i, G)
						}
						seen[i] = true
						s, w := 0.0, 0.0
						for j := range row {
							s += row[j] * row[j]
							w += float64(M0[i][j] * M0[i][j])
						}
						if s != w {
							return vh.Sf("instance %d is %v, want %v in some order", i, row, M0[i])
						}
					}
				}
				if len(seen) != n || len(G) != k {
					return vh.Sf("%d instances in %d clusters, want %d in %d", len(seen), len(G), n, k)
				}
				return ""
			})
			h.Case(n > 1, "KMeansI "+desc, func() string {
				X := make([][]float64, n)
				for i := range M {
					for _, v := range M[i] {
						X[i] = append(X[i], float64(v))
					}
				}
				G := cluster.KMeansI(k, X)
				if len(G) != n {
					return vh.Sf("%d assignments, want %d", len(G), n)
				}
				for i, g := range G {
					if g < 0 || g >= k {
						return vh.Sf("instance %d in cluster %d", i, g)
					}
				}
				return ""
			})
			h.Case(n > 1, "KMeansDataI "+desc, func() string {
				C := cluster.KMeansDataI(k, D)
				if len(C) != k {
					return vh.Sf("%d clusters, want %d", len(C), k)
				}
				s := bags(C, D0)
				if s == "" && !sameData(D, D0) {
					s = "the data were changed"
				}
				return s
			})
			eps := []float64{0, 1, 1.5, 2, 5, 20}[r.Intn(6)]
			mp := r.Intn(4)
			comp := comps(M0, eps)
			desc = vh.Sf("data %v eps %v mp %d", M, eps, mp)
			h.Case(n > 1, "DBSCAN "+desc, func() string {
				G := cluster.DBSCAN(M, eps, mp)
				for g := range G {
					if len(G[g]) == 0 {
						return vh.Sf("cluster %d is empty", g)
					}
				}
				c, s := parts(G, M0)
				if s == "" {
					s = inComps(c, comp, eps, mp)
				}
				if s == "" && !eqRows(M, M0) {
					s = "the data were changed"
				}
				return s
			})
			h.Case(n > 1, "DBSCANData "+desc, func() string {
				C := cluster.DBSCANData(D, eps, mp)
				if s := bags(C, D0); s != "" {
					return s
				}
				// rows of a cluster are chained
				where := make(map[int]int)
				for g := range C {
					f := -1
					for _, I := range C[g] {
						for i := range D0 {
							if sameData([]map[int]int{I}, D0[i:i+1]) {
								if f >= 0 && comp[i] != f {
									return vh.Sf("cluster %d joins instances that no chain of steps <= %v connects: %v", g, eps, C[g])
								}
								f = comp[i]
								if w, ok := where[f]; mp <= 1 && ok && w != g {
									return vh.Sf("chained instances are in clusters %d and %d although one neighbour is enough", w, g)
								}
								where[f] = g
								break
							}
						}
					}
				}
				if !sameData(D, D0) {
					return "the data were changed"
				}
				return ""
			})
			a, b := M[r.Intn(n)], M[r.Intn(n)]
			h.Case(!eqI(a, b), vh.Sf("metrics %v %v", a, b), func() string {
				var x, y []float64
				hm := 0
				for i := range a {
					x, y = append(x, float64(a[i])), append(y, float64(b[i]))
					if a[i] != b[i] {
						hm++
					}
				}
				if v := metrics.Euclidean(a, b); !vh.Close(v, dist(a, b)) {
					return vh.Sf("Euclidean %v, want %v", v, dist(a, b))
				}
				if v := metrics.EuclideanF(x, y); !vh.Close(v, dist(a, b)) {
					return vh.Sf("EuclideanF %v, want %v", v, dist(a, b))
				}
				if v := metrics.Hamming(a, b); v != hm {
					return vh.Sf("Hamming %v, want %v", v, hm)
				}
				if v := metrics.HammingF(a, b); v != float64(hm) {
					return vh.Sf("HammingF %v, want %v", v, hm)
				}
				return ""
			})
		}
	})
}

func eqRows(a, b [][]int) bool {
	for i := range a {
		if !eqI(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}
