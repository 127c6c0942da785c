package c20

import (
	"math/rand"
	"testing"

	"github.com/RenatoGeh/gospn/learn"
	"github.com/RenatoGeh/gospn/spn"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

func gen(r *rand.Rand, complete bool) spn.Dataset {
	n, m := 1+r.Intn(6), 1+r.Intn(6)
	if r.Intn(8) == 0 {
		m = 9 + r.Intn(6)
	}
	var vs []int
	seen := map[int]bool{}
	for len(vs) < m {
		v := len(vs)
		if !complete {
			v = r.Intn(40)
			if r.Intn(5) == 0 {
				v = r.Intn(1000) * 1000
			}
		}
		if !seen[v] {
			seen[v] = true
			vs = append(vs, v)
		}
	}
	D := make(spn.Dataset, n)
	for i := range D {
		D[i] = map[int]int{}
		for _, j := range r.Perm(m) {
			D[i][vs[j]] = r.Intn(9) - 2
		}
	}
	return D
}

func matrix(D spn.Dataset) string {
	m := len(D[0])
	check := func(what string, rows int, row func(int) int, S map[int]int, at func(i, t int) float64) string {
		if rows != len(D) {
			return vh.Sf("%s: %d rows", what, rows)
		}
		if len(S) != m {
			return vh.Sf("%s: renaming %v", what, S)
		}
		used := map[int]bool{}
		for t := 0; t < m; t++ {
			v, ok := S[t]
			if !ok || used[v] {
				return vh.Sf("%s: renaming %v is not one to one", what, S)
			}
			used[v] = true
		}
		for i := range D {
			if row(i) != m {
				return vh.Sf("%s: row %d has %d columns", what, i, row(i))
			}
			for t := 0; t < m; t++ {
				x, ok := D[i][S[t]]
				if !ok || at(i, t) != float64(x) {
					return vh.Sf("%s: entry %d,%d is %v, variable %d has %v", what, i, t, at(i, t), S[t], x)
				}
			}
		}
		return ""
	}
	M, S := learn.DataToMatrix(D)
	if e := check("DataToMatrix", len(M), func(i int) int { return len(M[i]) }, S, func(i, t int) float64 { return float64(M[i][t]) }); e != "" {
		return e
	}
	F, S2 := learn.DataToMatrixF(D)
	if e := check("DataToMatrixF", len(F), func(i int) int { return len(F[i]) }, S2, func(i, t int) float64 { return F[i][t] }); e != "" {
		return e
	}
	id := map[int]int{}
	for t := 0; t < m; t++ {
		if _, ok := D[0][t]; !ok {
			return ""
		}
		id[t] = t
	}
	C := learn.CompleteDataToMatrix(D)
	if e := check("CompleteDataToMatrix", len(C), func(i int) int { return len(C[i]) }, id, func(i, t int) float64 { return float64(C[i][t]) }); e != "" {
		return e
	}
	G := learn.CompleteDataToMatrixF(D)
	if e := check("CompleteDataToMatrixF", len(G), func(i int) int { return len(G[i]) }, id, func(i, t int) float64 { return G[i][t] }); e != "" {
		return e
	}
	back := learn.MatrixToData(C)
	if vh.Sf("%v", back) != vh.Sf("%v", D) {
		return vh.Sf("MatrixToData gives %v", back)
	}
	back[0][0] += 5
	C[0][0] += 7
	if vh.Sf("%v", back[0]) == vh.Sf("%v", D[0]) {
		return "a conversion shares storage with its source"
	}
	return ""
}

func scopes(D spn.Dataset, r *rand.Rand) string {
	Sc := map[int]*learn.Variable{}
	for v := range D[0] {
		if r.Intn(4) != 0 {
			Sc[v] = &learn.Variable{Varid: v, Categories: 2 + r.Intn(5), Name: vh.Sf("n%d", r.Intn(100))}
		}
	}
	if r.Intn(4) == 0 {
		Sc[-1] = &learn.Variable{Varid: r.Intn(50), Categories: 3, Name: "x"}
	}
	src := map[int]learn.Variable{}
	for k, v := range Sc {
		src[k] = *v
	}
	R, C := learn.ReflectScope(Sc), learn.CopyScope(Sc)
	if len(R) != len(Sc) || len(C) != len(Sc) {
		return vh.Sf("scope of size %d: %d reflected, %d copied", len(Sc), len(R), len(C))
	}
	for k, v := range Sc {
		if R[k] != v {
			return vh.Sf("ReflectScope: variable %d differs", k)
		}
		if C[k] == nil || C[k] == v || *C[k] != *v {
			return vh.Sf("CopyScope: variable %d is %v instead of a copy of %v", k, C[k], v)
		}
	}
	vd := learn.DataToVarData(D, Sc)
	if len(vd) != len(Sc) {
		return vh.Sf("DataToVarData: %d columns of %d", len(vd), len(Sc))
	}
	want, got := map[string]int{}, map[string]int{}
	for _, v := range Sc {
		want[vh.Sf("%d %d %v", v.Varid, v.Categories, learn.ExtractInstance(v.Varid, D))]++
	}
	for _, c := range vd {
		got[vh.Sf("%d %d %v", c.Varid, c.Categories, c.Data)]++
	}
	if vh.Sf("%v", got) != vh.Sf("%v", want) {
		return vh.Sf("DataToVarData gives %v instead of %v", got, want)
	}
	for v := range D[0] {
		p := learn.ExtractInstance(v, D)
		if len(p) != len(D) {
			return "ExtractInstance: wrong length"
		}
		for i := range D {
			if p[i] != D[i][v] {
				return vh.Sf("ExtractInstance(%d): %v", v, p)
			}
		}
	}
	delete(R, -1)
	for k, v := range Sc {
		if *v != src[k] {
			return "the scope was changed"
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		r := vh.Rand()
		for it := 0; it < vh.N(3000, 40000); it++ {
			D := gen(r, it%2 == 0)
			s := vh.Sf("%v", D)
			h.Case(len(D) > 1 && len(D[0]) > 1, "dataset "+s, func() string {
				if e := matrix(D); e != "" {
					return e
				}
				if e := scopes(D, r); e != "" {
					return e
				}
				if vh.Sf("%v", D) != s {
					return "the dataset was changed"
				}
				return ""
			})
		}
		for it := 0; it < vh.N(300, 3000); it++ {
			M := make([][]int, r.Intn(5))
			for i := range M {
				M[i] = make([]int, r.Intn(5))
				for j := range M[i] {
					M[i][j] = r.Intn(4)
				}
			}
			h.Case(len(M) > 1, vh.Sf("matrix %v", M), func() string {
				D := learn.MatrixToData(M)
				if len(D) != len(M) {
					return vh.Sf("MatrixToData: %v", D)
				}
				for i := range M {
					if D[i] == nil || len(D[i]) != len(M[i]) {
						return vh.Sf("MatrixToData: %v", D)
					}
					for j := range M[i] {
						if x, ok := D[i][j]; !ok || x != M[i][j] {
							return vh.Sf("MatrixToData: %v", D)
						}
					}
				}
				return ""
			})
		}
	})
}
