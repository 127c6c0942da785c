package c15

import (
	"math/rand"
	"sort"
	"testing"

	"github.com/RenatoGeh/gospn/data"
	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

type ds = []map[int]int

// gen gives n instances over up to w variables with labels below c. With ident, instances carry
// their own number, so that any two differ; otherwise duplicates are likely.
func gen(r *rand.Rand, n, w, c int, ident bool) (ds, []int) {
	D, L := make(ds, n), make([]int, n)
	holes := r.Intn(2) == 0
	for i := range D {
		D[i] = map[int]int{}
		for v := 0; v < w; v++ {
			if holes && r.Intn(4) == 0 {
				continue
			}
			D[i][v] = r.Intn(3)
		}
		if ident {
			D[i][w] = 1000 + i
		}
		if c > 0 {
			L[i] = r.Intn(c)
		}
	}
	return D, L
}

func clone(D ds) ds {
	if D == nil {
		return nil
	}
	E := make(ds, len(D))
	for i, I := range D {
		E[i] = map[int]int{}
		for k, v := range I {
			E[i][k] = v
		}
	}
	return E
}

func ints(L []int) []int {
	if L == nil {
		return nil
	}
	return append([]int{}, L...)
}

func key(I map[int]int, l int) string {
	ks := []int{}
	for k := range I {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := vh.Sf("%d:", l)
	for _, k := range ks {
		s += vh.Sf("%d=%d,", k, I[k])
	}
	return s
}

func lab(L []int, i int) int {
	if L == nil || i >= len(L) {
		return -1
	}
	return L[i]
}

// seq compares two labelled datasets in order.
func seq(what string, D ds, L []int, E ds, M []int) string {
	if len(D) != len(E) {
		return vh.Sf("%s: %d instances, want %d", what, len(D), len(E))
	}
	if M != nil && len(L) != len(M) {
		return vh.Sf("%s: %d labels, want %d", what, len(L), len(M))
	}
	if M == nil && len(L) != 0 {
		return vh.Sf("%s: labels %v, want none", what, L)
	}
	for i := range D {
		if a, b := key(D[i], lab(L, i)), key(E[i], lab(M, i)); a != b {
			return vh.Sf("%s: position %d holds %s, want %s", what, i, a, b)
		}
	}
	return ""
}

func keys(D ds, L []int) []string {
	s := make([]string, len(D))
	for i := range D {
		s[i] = key(D[i], lab(L, i))
	}
	sort.Strings(s)
	return s
}

// bag compares two labelled datasets as multisets.
func bag(what string, D ds, L []int, E ds, M []int) string {
	a, b := keys(D, L), keys(E, M)
	if len(a) != len(b) {
		return vh.Sf("%s: %d instances, want %d", what, len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return vh.Sf("%s: as a multiset %v, want %v", what, a, b)
		}
	}
	return ""
}

// dirty overwrites everything reachable from the results; the inputs must not notice.
func dirty(D ds, L []int) {
	for i := range D {
		if D[i] != nil {
			for k := range D[i] {
				D[i][k] = -7
			}
			D[i][999] = -7
		}
	}
	for i := range L {
		L[i] = -9
	}
}

func first(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

func one(r *rand.Rand, op, n, w, c int, ident bool) (string, func() string) {
	D, L := gen(r, n, w, c, ident)
	oD, oL := clone(D), ints(L)
	keep := func(what string) string {
		return first(seq(what+": the input afterwards", D, L, oD, oL))
	}
	in := vh.Sf("D=%v L=%v", D, L)
	hasL := r.Intn(4) != 0
	switch op {
	case 0:
		return "Copy " + in + vh.Sf(" labels=%v", hasL), func() string {
			var A []int
			if hasL {
				A = L
			}
			nD, nL := data.Copy(D, A)
			e := seq("Copy", nD, nL, oD, ints(A))
			dirty(nD, nL)
			return first(e, keep("Copy"))
		}
	case 1:
		m := r.Intn(5)
		E, M := gen(r, m, w, c, ident)
		oE, oM := clone(E), ints(M)
		k := r.Intn(5)
		return "Join " + in + vh.Sf(" E=%v M=%v labels=%d", E, M, k), func() string {
			A, B := L, M
			if k == 1 {
				A = nil
			} else if k == 2 {
				B = nil
			} else if k == 3 {
				A, B = nil, nil
			}
			F, P := data.Join(D, E, A, B)
			var want []int
			if A != nil && B != nil {
				want = append(ints(oL), oM...)
			}
			e := seq("Join", F, P, append(clone(oD), clone(oE)...), want)
			dirty(F, P)
			return first(e, keep("Join"), seq("Join: the second input afterwards", E, M, oE, oM))
		}
	case 2:
		l := r.Intn(c + 1)
		return "SubtractLabel " + in + vh.Sf(" l=%d", l), func() string {
			S, P, T, Q := data.SubtractLabel(D, L, l)
			var wS, wT ds
			wP, wQ := []int{}, []int{}
			for i := range oD {
				if oL[i] == l {
					wT, wQ = append(wT, oD[i]), append(wQ, l)
				} else {
					wS, wP = append(wS, oD[i]), append(wP, oL[i])
				}
			}
			e := first(seq("SubtractLabel, rest", S, P, wS, wP), seq("SubtractLabel, subtracted", T, Q, wT, wQ))
			dirty(S, P)
			dirty(T, Q)
			return first(e, keep("SubtractLabel"))
		}
	case 3:
		v := r.Intn(w + 2)
		return "SubtractVariable " + in + vh.Sf(" v=%d", v), func() string {
			E := data.SubtractVariable(D, &learn.Variable{Varid: v, Categories: 3})
			want := clone(oD)
			for i := range want {
				delete(want[i], v)
			}
			e := seq("SubtractVariable", E, nil, want, nil)
			dirty(E, nil)
			return first(e, keep("SubtractVariable"))
		}
	case 4:
		v := w + 1 + r.Intn(3)
		return "MergeLabel " + in + vh.Sf(" v=%d", v), func() string {
			E := data.MergeLabel(D, L, &learn.Variable{Varid: v, Categories: c})
			want := clone(oD)
			for i := range want {
				want[i][v] = oL[i]
			}
			e := seq("MergeLabel", E, nil, want, nil)
			dirty(E, nil)
			return first(e, keep("MergeLabel"))
		}
	case 5:
		// every instance holds the last variable
		S := map[int]*learn.Variable{}
		for v := 0; v <= w; v++ {
			S[v] = &learn.Variable{Varid: v, Categories: 4}
		}
		for i := range D {
			D[i][w] = r.Intn(c + 1)
		}
		oD = clone(D)
		return vh.Sf("ExtractLabels D=%v", D), func() string {
			S2, M, lv, P := data.ExtractLabels(S, D)
			if len(S2) != w+1 || lv != S[w] {
				return vh.Sf("ExtractLabels: scope %v label variable %v", S2, lv)
			}
			for v := 0; v <= w; v++ {
				if S2[v] != S[v] {
					return vh.Sf("ExtractLabels: scope changed at %d", v)
				}
			}
			want, wl := clone(oD), make([]int, len(D))
			for i := range want {
				wl[i] = want[i][w]
				delete(want[i], w)
			}
			e := seq("ExtractLabels", M, P, want, wl)
			dirty(M, P)
			return first(e, seq("ExtractLabels: the input afterwards", D, nil, oD, nil))
		}
	case 6:
		return "Split " + in + vh.Sf(" c=%d", c), func() string {
			S := data.Split(D, c, L)
			if len(S) != c {
				return vh.Sf("Split: %d parts, want %d", len(S), c)
			}
			e := ""
			for l := range S {
				var want ds
				for i := range oD {
					if oL[i] == l {
						want = append(want, oD[i])
					}
				}
				e = first(e, seq(vh.Sf("Split, part %d", l), S[l], nil, want, nil))
			}
			for _, s := range S {
				dirty(s, nil)
			}
			return first(e, keep("Split"))
		}
	case 7:
		return "Shuffle " + in + vh.Sf(" labels=%v", hasL), func() string {
			A, oA := L, oL
			if !hasL {
				A, oA = nil, nil
			}
			ptr := map[string]bool{}
			for _, I := range D {
				ptr[vh.Sf("%p", I)] = true
			}
			data.Shuffle(D, A)
			for i, I := range D {
				if !ptr[vh.Sf("%p", I)] {
					return vh.Sf("Shuffle: position %d is not one of the instances", i)
				}
				delete(ptr, vh.Sf("%p", I))
			}
			return bag("Shuffle", D, A, oD, oA)
		}
	case 8:
		E, M := clone(D), ints(L)
		ch := r.Intn(7)
		k := r.Intn(4)
		want := true
		switch {
		case ch == 1 && n > 0:
			E[r.Intn(n)][r.Intn(w+1)] = 77
			want = false
		case ch == 2 && n > 0:
			E[n-1][500] = 0
			want = false
		case ch == 3 && n > 0:
			D[r.Intn(n)][500] = 0
			want = false
		case ch == 4 && n > 0:
			E, M = E[:n-1], M[:n-1]
			want = false
		case ch == 5:
			E, M = append(E, map[int]int{0: 1}), append(M, 0)
			want = false
		case ch == 6 && n > 0:
			M[r.Intn(n)] = c
			want = k != 0
		}
		sD, sE, sM := clone(D), clone(E), ints(M)
		return vh.Sf("Identical D=%v E=%v L=%v M=%v labels=%d", D, E, L, M, k), func() string {
			A, B := L, M
			if k == 1 || k == 3 {
				A = nil
			}
			if k == 2 || k == 3 {
				B = nil
			}
			if g := data.Identical(D, E, A, B); g != want {
				return vh.Sf("Identical: %v, want %v", g, want)
			}
			return first(seq("Identical: the first afterwards", D, L, sD, oL), seq("Identical: the second afterwards", E, M, sE, sM))
		}
	case 9:
		k := 1 + r.Intn(n+3)
		return "Divide " + in + vh.Sf(" n=%d", k), func() string {
			G, H := data.Divide(D, L, k)
			var a ds
			b := []int{}
			if len(G) != len(H) {
				return vh.Sf("Divide: %d datasets, %d label slices", len(G), len(H))
			}
			if n >= k && len(G) != k {
				return vh.Sf("Divide: %d parts, want %d", len(G), k)
			}
			for i := range G {
				if len(G[i]) != len(H[i]) {
					return vh.Sf("Divide: part %d has %d instances and %d labels", i, len(G[i]), len(H[i]))
				}
				if n >= k && (len(G[i]) < n/k || len(G[i]) > n/k+1) {
					return vh.Sf("Divide: part %d has %d of %d instances, want about 1/%d", i, len(G[i]), n, k)
				}
				a, b = append(a, G[i]...), append(b, H[i]...)
			}
			e := bag("Divide", a, b, oD, oL)
			for i := range G {
				dirty(G[i], H[i])
			}
			return first(e, keep("Divide"))
		}
	default:
		p, den := props(r)
		if op == 10 {
			return "Partition " + in + vh.Sf(" p=%v", p), func() string {
				P := data.Partition(D, p)
				if len(P) != len(p) {
					return vh.Sf("Partition: %d parts, want %d", len(P), len(p))
				}
				var a ds
				for i := range P {
					if d := float64(len(P[i])) - p[i]*float64(n); d > 1+1e-9 || d < -1-1e-9 {
						return vh.Sf("Partition: part %d has %d of %d instances, want %v of them", i, len(P[i]), n, p[i])
					}
					if den > 0 && n%den == 0 && float64(len(P[i])) != p[i]*float64(n) {
						return vh.Sf("Partition: part %d has %d of %d instances, want exactly %v of them", i, len(P[i]), n, p[i])
					}
					a = append(a, P[i]...)
				}
				e := bag("Partition", a, nil, oD, nil)
				for i := range P {
					dirty(P[i], nil)
				}
				return first(e, keep("Partition"))
			}
		}
		return "PartitionByLabels " + in + vh.Sf(" c=%d p=%v", c, p), func() string {
			N := make([]int, c)
			exact := den > 0
			for _, l := range L {
				N[l]++
			}
			for _, x := range N {
				exact = exact && x%den == 0
			}
			P, U := data.PartitionByLabels(D, L, c, p)
			if len(P) != len(p) || len(U) != len(p) {
				return vh.Sf("PartitionByLabels: %d and %d parts, want %d", len(P), len(U), len(p))
			}
			var a ds
			b := []int{}
			for i := range P {
				if len(P[i]) != len(U[i]) {
					return vh.Sf("PartitionByLabels: part %d has %d instances and %d labels", i, len(P[i]), len(U[i]))
				}
				if den > 0 {
					got := make([]int, c)
					for _, l := range U[i] {
						if l >= 0 && l < c {
							got[l]++
						}
					}
					for j := range got {
						want := p[i] * float64(N[j])
						if float64(got[j]) < want-1 || exact && float64(got[j]) != want {
							return vh.Sf("PartitionByLabels: part %d has %d instances of class %d, want about %v (exactly: %v)", i, got[j], j, want, exact)
						}
					}
				}
				a, b = append(a, P[i]...), append(b, U[i]...)
			}
			e := bag("PartitionByLabels", a, b, oD, oL)
			for i := range P {
				dirty(P[i], U[i])
			}
			return first(e, keep("PartitionByLabels"))
		}
	}
}

// props gives proportions that sum to one; den is their common denominator when it is a power of
// two (every product with a count is then exact), otherwise zero.
func props(r *rand.Rand) ([]float64, int) {
	k := 1 + r.Intn(4)
	if r.Intn(3) == 0 {
		ps := [][]float64{{0.3, 0.7}, {0.1, 0.2, 0.7}, {0.2, 0.2, 0.2, 0.2, 0.2}, {0.9, 0.1}, {0.6, 0.4}}
		return ps[r.Intn(len(ps))], 0
	}
	den := []int{2, 4, 8}[r.Intn(3)]
	cut := make([]int, k-1)
	for i := range cut {
		cut[i] = r.Intn(den + 1)
	}
	cut = append(cut, den)
	sort.Ints(cut)
	p, q := make([]float64, k), 0
	for i := range p {
		p[i] = float64(cut[i]-q) / float64(den)
		q = cut[i]
	}
	return p, den
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		rand.Seed(vh.Rand().Int63())
		r := vh.Rand()
		do := func(op, n, w, c int, ident bool) {
			d, f := one(r, op, n, w, c, ident)
			h.Case(n > 1, d, f)
		}
		for op := 0; op < 12; op++ {
			for n := 0; n <= 6; n++ {
				for c := 1; c <= 3; c++ {
					for k := 0; k < 4; k++ {
						do(op, n, 1+r.Intn(3), c, k%2 == 0)
					}
				}
			}
		}
		for i := 0; i < vh.N(6000, 200000); i++ {
			n := r.Intn(14)
			if r.Intn(6) == 0 {
				n = []int{16, 24, 32, 40, 100}[r.Intn(5)]
			}
			do(r.Intn(12), n, 1+r.Intn(4), 1+r.Intn(4), r.Intn(3) != 0)
		}
	})
}
