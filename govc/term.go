package main

// Hash-consed SMT terms.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type QV struct{ Name, Sort string }

type Term struct {
	Op   string
	Args []*Term
	Sort string
	Vars []QV      // quantifier variables
	Pats [][]*Term // quantifier patterns
	id   int
	free []string // free bound-variable names (sorted)
	qd   int      // quantifier nesting depth (0: not computed or none)
	qdOK bool
	size int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	freshCtr int
)

func freshName(base string) string {
	freshCtr++
	return fmt.Sprintf("%s!%d", base, freshCtr)
}

func mergeFree(args []*Term, vars []QV) []string {
	m := map[string]bool{}
	for _, a := range args {
		for _, f := range a.free {
			m[f] = true
		}
	}
	for _, v := range vars {
		delete(m, v.Name)
	}
	if len(m) == 0 {
		return nil
	}
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	sz := 1
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
		sz += a.size
		if sz > 1<<30 {
			sz = 1 << 30
		}
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: srt, id: len(termList), size: sz}
	t.free = mergeFree(args, nil)
	termTab[key] = t
	termList = append(termList, t)
	return t
}

// constants / variables
func mkConst(name, srt string) *Term { return mk(name, srt) }

var bvTab = map[string]*Term{}

func mkBV(name, srt string) *Term {
	if t, ok := bvTab[name]; ok {
		return t
	}
	t := &Term{Op: name, Sort: srt, id: len(termList), size: 1, free: []string{name}}
	termList = append(termList, t)
	bvTab[name] = t
	return t
}

var quantTab = map[string]*Term{}

func quantDepth(t *Term) int {
	if t.qdOK || len(t.Args) == 0 {
		return t.qd
	}
	d := 0
	for _, a := range t.Args {
		if k := quantDepth(a); k > d {
			d = k
		}
	}
	if len(t.Vars) > 0 {
		d++
	}
	t.qd, t.qdOK = d, true
	return d
}

// substBV renames bound variables; subterms without them are left alone.
func substBV(t *Term, m map[*Term]*Term) *Term {
	names := map[string]bool{}
	for k := range m {
		names[k.Op] = true
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		hit := false
		for _, f := range t.free {
			if names[f] {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.Vars) > 0 {
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = mkQuant(t.Op, t.Vars, ps, rec(t.Args[0]))
		} else {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = rec(a)
			}
			r = mk(t.Op, t.Sort, args...)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func mkQuant(q string, vars []QV, pats [][]*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		if len(p) > 0 {
			ps = append(ps, p)
		}
	}
	// drop vars which are not used
	used := map[string]bool{}
	for _, f := range body.free {
		used[f] = true
	}
	var vs []QV
	for _, v := range vars {
		if used[v.Name] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	// alpha-equivalent quantifiers share one term
	ms := map[*Term]*Term{}
	depth := quantDepth(body) + 1
	var kb strings.Builder
	kb.WriteString(q)
	for i, v := range vs {
		ms[mkBV(v.Name, v.Sort)] = mkBV(fmt.Sprintf("cv%d_%d_%s", depth, i, v.Sort), v.Sort)
		kb.WriteString("|" + v.Sort)
	}
	fmt.Fprintf(&kb, "|%d", substBV(body, ms).id)
	for _, p := range ps {
		kb.WriteString(";")
		for _, x := range p {
			fmt.Fprintf(&kb, ",%d", substBV(x, ms).id)
		}
	}
	key := kb.String()
	if t, ok := quantTab[key]; ok {
		return t
	}
	t := &Term{Op: q, Args: []*Term{body}, Sort: "Bool", Vars: vs, Pats: ps, id: len(termList), size: body.size + 1}
	quantTab[key] = t
	t.qd = depth
	all := []*Term{body}
	t.free = mergeFree(all, vs)
	termList = append(termList, t)
	return t
}

var (
	tTrue  = mkConst("true", "Bool")
	tFalse = mkConst("false", "Bool")
)

func tInt(n int64) *Term {
	if n < 0 {
		return mk("-", "Int", mkConst(fmt.Sprint(-n), "Int"))
	}
	return mkConst(fmt.Sprint(n), "Int")
}

func tBig(n *big.Int) *Term {
	if n.Sign() < 0 {
		return mk("-", "Int", mkConst(new(big.Int).Neg(n).String(), "Int"))
	}
	return mkConst(n.String(), "Int")
}

func tReal(r *big.Rat) *Term {
	neg := r.Sign() < 0
	x := new(big.Rat).Abs(r)
	var t *Term
	if x.IsInt() {
		t = mkConst(x.Num().String()+".0", "Real")
	} else {
		t = mk("/", "Real", mkConst(x.Num().String()+".0", "Real"), mkConst(x.Denom().String()+".0", "Real"))
	}
	if neg {
		t = mk("-", "Real", t)
	}
	return t
}

func isNumeral(t *Term) bool {
	return t.Sort == "Int" && len(t.Args) == 0 && t.Op[0] >= '0' && t.Op[0] <= '9'
}

func intVal(t *Term) (*big.Int, bool) {
	if t.Sort != "Int" {
		return nil, false
	}
	if isNumeral(t) {
		n, ok := new(big.Int).SetString(t.Op, 10)
		return n, ok
	}
	if t.Op == "-" && len(t.Args) == 1 {
		if n, ok := intVal(t.Args[0]); ok {
			return new(big.Int).Neg(n), true
		}
	}
	return nil, false
}

func realVal(t *Term) (*big.Rat, bool) {
	if t.Sort != "Real" {
		return nil, false
	}
	if len(t.Args) == 0 && t.Op[0] >= '0' && t.Op[0] <= '9' {
		r, ok := new(big.Rat).SetString(t.Op)
		return r, ok
	}
	if t.Op == "-" && len(t.Args) == 1 {
		if n, ok := realVal(t.Args[0]); ok {
			return new(big.Rat).Neg(n), true
		}
	}
	if t.Op == "/" && len(t.Args) == 2 {
		a, ok1 := realVal(t.Args[0])
		b, ok2 := realVal(t.Args[1])
		if ok1 && ok2 && b.Sign() != 0 {
			return new(big.Rat).Quo(a, b), true
		}
	}
	return nil, false
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", "Bool", a)
}

func tAnd(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == tTrue || seen[x] {
			continue
		}
		if x == tFalse {
			return tFalse
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if seen[tNotPeek(x)] && tNotPeek(x) != nil {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func tNotPeek(x *Term) *Term {
	if x.Op == "not" {
		return x.Args[0]
	}
	return nil
}

func tOr(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == tFalse || seen[x] {
			continue
		}
		if x == tTrue {
			return tTrue
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !seen[y] {
					seen[y] = true
					out = append(out, y)
				}
			}
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	for _, x := range out {
		if n := tNotPeek(x); n != nil && seen[n] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	return mk("=>", "Bool", a, b)
}

func isStrLit(t *Term) bool { return t.Sort == "Str" && strings.HasPrefix(t.Op, "str$") }

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		// coercions int -> real
		if a.Sort == "Int" && b.Sort == "Real" {
			a = toReal(a)
		} else if a.Sort == "Real" && b.Sort == "Int" {
			b = toReal(b)
		} else {
			panic(specErr(fmt.Sprintf("sort mismatch in ==: %s (%s) vs %s (%s)", show(a), a.Sort, show(b), b.Sort)))
		}
	}
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			if x.Cmp(y) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if x, ok := realVal(a); ok {
		if y, ok := realVal(b); ok {
			if x.Cmp(y) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if a.Sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if isStrLit(a) && isStrLit(b) {
		return tFalse
	}
	if isCtor(a.Op) && isCtor(b.Op) {
		if a.Op != b.Op {
			return tFalse
		}
		if len(a.Args) > 0 {
			var xs []*Term
			for i := range a.Args {
				xs = append(xs, tEq(a.Args[i], b.Args[i]))
			}
			return tAnd(xs...)
		}
	}
	// (ite c x y) == z with constants
	if a.Op == "ite" && isGround(b) && isGround(a.Args[1]) && isGround(a.Args[2]) {
		return tIte(a.Args[0], tEq(a.Args[1], b), tEq(a.Args[2], b))
	}
	if b.Op == "ite" && isGround(a) && isGround(b.Args[1]) && isGround(b.Args[2]) {
		return tIte(b.Args[0], tEq(b.Args[1], a), tEq(b.Args[2], a))
	}
	if a.Op == "ix" && b.Op == "ix" && a.Args[0] == b.Args[0] {
		return tEq(a.Args[1], b.Args[1])
	}
	// linear offsets: base+c == base+d
	if a.Sort == "Int" {
		ba, ca := splitLin(a)
		bb, cb := splitLin(b)
		if ba == bb && ba != nil {
			if ca.Cmp(cb) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

func isGround(t *Term) bool {
	if isStrLit(t) || t == tTrue || t == tFalse {
		return true
	}
	if _, ok := intVal(t); ok {
		return true
	}
	return false
}

// splitLin: t = base + const (base nil when constant)
func splitLin(t *Term) (*Term, *big.Int) {
	if v, ok := intVal(t); ok {
		return nil, v
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if v, ok := intVal(t.Args[1]); ok {
			return t.Args[0], v
		}
	}
	return t, big.NewInt(0)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
	}
	if a.Sort != b.Sort {
		panic(specErr(fmt.Sprintf("sort mismatch in ite: %s vs %s", a.Sort, b.Sort)))
	}
	return mk("ite", a.Sort, c, a, b)
}

func tAdd(a, b *Term) *Term {
	if a.Sort == "Real" || b.Sort == "Real" {
		a, b = toReal(a), toReal(b)
		if x, ok := realVal(a); ok {
			if y, ok := realVal(b); ok {
				return tReal(new(big.Rat).Add(x, y))
			}
			if x.Sign() == 0 {
				return b
			}
		}
		if y, ok := realVal(b); ok && y.Sign() == 0 {
			return a
		}
		return mk("+", "Real", a, b)
	}
	ba, ca := splitLin(a)
	bb, cb := splitLin(b)
	c := new(big.Int).Add(ca, cb)
	switch {
	case ba == nil && bb == nil:
		return tBig(c)
	case ba == nil:
		return linMk(bb, c)
	case bb == nil:
		return linMk(ba, c)
	}
	return linMk(mk("+", "Int", ba, bb), c)
}

func linMk(b *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return b
	}
	return mk("+", "Int", b, tBig(c))
}

func tNeg(a *Term) *Term {
	if a.Sort == "Real" {
		if x, ok := realVal(a); ok {
			return tReal(new(big.Rat).Neg(x))
		}
		return mk("-", "Real", a)
	}
	if x, ok := intVal(a); ok {
		return tBig(new(big.Int).Neg(x))
	}
	return mk("-", "Int", a)
}

func tSub(a, b *Term) *Term {
	if a.Sort == "Real" || b.Sort == "Real" {
		a, b = toReal(a), toReal(b)
		if x, ok := realVal(a); ok {
			if y, ok := realVal(b); ok {
				return tReal(new(big.Rat).Sub(x, y))
			}
		}
		if y, ok := realVal(b); ok && y.Sign() == 0 {
			return a
		}
		if a == b {
			return tReal(new(big.Rat))
		}
		return mk("-", "Real", a, b)
	}
	ba, ca := splitLin(a)
	bb, cb := splitLin(b)
	c := new(big.Int).Sub(ca, cb)
	if ba == bb {
		return tBig(c)
	}
	if bb == nil {
		return linMk(ba, c)
	}
	if ba == nil {
		return mk("-", "Int", tBig(c), bb)
	}
	return linMk(mk("-", "Int", ba, bb), c)
}

func tMul(a, b *Term) *Term {
	if a.Sort == "Real" || b.Sort == "Real" {
		a, b = toReal(a), toReal(b)
		x, ok1 := realVal(a)
		y, ok2 := realVal(b)
		if ok1 && ok2 {
			return tReal(new(big.Rat).Mul(x, y))
		}
		if ok1 && x.Sign() == 0 {
			return a
		}
		if ok2 && y.Sign() == 0 {
			return b
		}
		one := big.NewRat(1, 1)
		if ok1 && x.Cmp(one) == 0 {
			return b
		}
		if ok2 && y.Cmp(one) == 0 {
			return a
		}
		return mk("*", "Real", a, b)
	}
	x, ok1 := intVal(a)
	y, ok2 := intVal(b)
	if ok1 && ok2 {
		return tBig(new(big.Int).Mul(x, y))
	}
	if ok1 && x.Sign() == 0 || ok2 && y.Sign() == 0 {
		return tInt(0)
	}
	if ok1 && x.IsInt64() && x.Int64() == 1 {
		return b
	}
	if ok2 && y.IsInt64() && y.Int64() == 1 {
		return a
	}
	return mk("*", "Int", a, b)
}

func tDivR(a, b *Term) *Term {
	a, b = toReal(a), toReal(b)
	if y, ok := realVal(b); ok && y.Sign() != 0 {
		if x, ok := realVal(a); ok {
			return tReal(new(big.Rat).Quo(x, y))
		}
	}
	return mk("/", "Real", a, b)
}

func toReal(a *Term) *Term {
	if a.Sort == "Real" {
		return a
	}
	if a.Sort != "Int" {
		panic(specErr("toReal of " + a.Sort + ": " + show(a)))
	}
	if x, ok := intVal(a); ok {
		return tReal(new(big.Rat).SetInt(x))
	}
	return mk("to_real", "Real", a)
}

func tCmp(op string, a, b *Term) *Term {
	if a.Sort == "Real" || b.Sort == "Real" {
		a, b = toReal(a), toReal(b)
		x, ok1 := realVal(a)
		y, ok2 := realVal(b)
		if ok1 && ok2 {
			return cmpRes(op, x.Cmp(y))
		}
	} else {
		ba, ca := splitLin(a)
		bb, cb := splitLin(b)
		if ba == bb {
			return cmpRes(op, ca.Cmp(cb))
		}
	}
	if op == ">" {
		return mk("<", "Bool", b, a)
	}
	if op == ">=" {
		return mk("<=", "Bool", b, a)
	}
	return mk(op, "Bool", a, b)
}

func cmpRes(op string, c int) *Term {
	var r bool
	switch op {
	case "<":
		r = c < 0
	case "<=":
		r = c <= 0
	case ">":
		r = c > 0
	case ">=":
		r = c >= 0
	}
	if r {
		return tTrue
	}
	return tFalse
}

func tLt(a, b *Term) *Term { return tCmp("<", a, b) }
func tLe(a, b *Term) *Term { return tCmp("<=", a, b) }

// arrays
func arrSorts(s string) (string, string) {
	// (Array K V)
	if !strings.HasPrefix(s, "(Array ") {
		panic(specErr("not an array sort: " + s))
	}
	in := s[7 : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("bad array sort " + s)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func distinctConst(a, b *Term) bool {
	return tEq(a, b) == tFalse
}

func tSel(a, i *Term) *Term {
	_, vs := arrSorts(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctConst(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if strings.HasPrefix(a.Op, "(as const") {
			return a.Args[0]
		}
		break
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") && a.size < 40 {
		return tIte(a.Args[0], tSel(a.Args[1], i), tSel(a.Args[2], i))
	}
	return mk("select", vs, a, i)
}

func tStore(a, i, v *Term) *Term {
	_, vs := arrSorts(a.Sort)
	if v.Sort != vs {
		panic(specErr(fmt.Sprintf("store sort mismatch %s into %s", v.Sort, a.Sort)))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk("store", a.Sort, a, i, v)
}

func tConstArr(srt string, v *Term) *Term {
	return mk("(as const "+srt+")", srt, v)
}

// datatypes
type dtField struct{ Name, Sort string }
type dtCtor struct {
	Name   string
	Fields []dtField
}
type dtDecl struct {
	Sort  string
	Ctors []dtCtor
}

var (
	datatypes = map[string]*dtDecl{}
	dtOrder   []string
	ctorOf    = map[string]*dtDecl{}
	selOf     = map[string]struct {
		ctor string
		idx  int
		sort string
	}{}
)

func declDatatype(srt string, ctors ...dtCtor) {
	d := &dtDecl{srt, ctors}
	datatypes[srt] = d
	dtOrder = append(dtOrder, srt)
	for _, c := range ctors {
		ctorOf[c.Name] = d
		for i, f := range c.Fields {
			selOf[f.Name] = struct {
				ctor string
				idx  int
				sort string
			}{c.Name, i, f.Sort}
		}
	}
}

func isCtor(op string) bool { _, ok := ctorOf[op]; return ok }

func tCtor(name string, args ...*Term) *Term {
	d := ctorOf[name]
	for _, c := range d.Ctors {
		if c.Name == name {
			for i, f := range c.Fields {
				if args[i].Sort != f.Sort {
					panic(specErr(fmt.Sprintf("ctor %s arg %d sort %s want %s", name, i, args[i].Sort, f.Sort)))
				}
			}
			// eta: C(sel0 x, sel1 x, ...) = x
			if len(d.Ctors) == 1 && len(args) > 0 {
				var base *Term
				ok := true
				for i, f := range c.Fields {
					if args[i].Op == f.Name && len(args[i].Args) == 1 && (base == nil || base == args[i].Args[0]) {
						base = args[i].Args[0]
					} else {
						ok = false
						break
					}
				}
				if ok {
					return base
				}
			}
		}
	}
	return mk(name, d.Sort, args...)
}

func tField(sel string, t *Term) *Term {
	s := selOf[sel]
	if t.Op == s.ctor {
		return t.Args[s.idx]
	}
	if t.Op == "ite" && (t.Args[1].Op == s.ctor || t.Args[2].Op == s.ctor) {
		return tIte(t.Args[0], tField(sel, t.Args[1]), tField(sel, t.Args[2]))
	}
	return mk(sel, s.sort, t)
}

func tIs(ctor string, t *Term) *Term {
	if isCtor(t.Op) {
		if t.Op == ctor {
			return tTrue
		}
		return tFalse
	}
	if t.Op == "ite" && (isCtor(t.Args[1].Op) || isCtor(t.Args[2].Op)) {
		return tIte(t.Args[0], tIs(ctor, t.Args[1]), tIs(ctor, t.Args[2]))
	}
	return mk("(_ is "+ctor+")", "Bool", t)
}

// function applications with registered signature
type funSig struct {
	args []string
	ret  string
}

var funTab = map[string]funSig{}

func declFun(name string, args []string, ret string) { funTab[name] = funSig{args, ret} }

func tApp(name string, args ...*Term) *Term {
	s, ok := funTab[name]
	if !ok {
		panic(specErr("undeclared function " + name))
	}
	if len(args) != len(s.args) {
		panic(specErr(fmt.Sprintf("%s: %d args, want %d", name, len(args), len(s.args))))
	}
	for i := range args {
		if args[i].Sort != s.args[i] {
			if args[i].Sort == "Int" && s.args[i] == "Real" {
				args[i] = toReal(args[i])
				continue
			}
			panic(specErr(fmt.Sprintf("%s arg %d: sort %s want %s (%s)", name, i, args[i].Sort, s.args[i], show(args[i]))))
		}
	}
	return mk(name, s.ret, args...)
}

// substitution of constants / bound variables by terms
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if len(t.Vars) > 0 {
			var ps [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = mkQuant(t.Op, t.Vars, ps, rec(t.Args[0]))
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "and":
		return tAnd(a...)
	case "or":
		return tOr(a...)
	case "not":
		return tNot(a[0])
	case "=>":
		return tImp(a[0], a[1])
	case "=":
		return tEq(a[0], a[1])
	case "ite":
		return tIte(a[0], a[1], a[2])
	case "select":
		return tSel(a[0], a[1])
	case "store":
		return tStore(a[0], a[1], a[2])
	case "+":
		if len(a) == 2 {
			return tAdd(a[0], a[1])
		}
	case "-":
		if len(a) == 2 {
			return tSub(a[0], a[1])
		}
		return tNeg(a[0])
	case "*":
		return tMul(a[0], a[1])
	case "<", "<=":
		return tCmp(t.Op, a[0], a[1])
	}
	if s, ok := selOf[t.Op]; ok && len(a) == 1 {
		_ = s
		return tField(t.Op, a[0])
	}
	if strings.HasPrefix(t.Op, "(_ is ") {
		return tIs(t.Op[6:len(t.Op)-1], a[0])
	}
	if isCtor(t.Op) {
		return tCtor(t.Op, a...)
	}
	return mk(t.Op, t.Sort, a...)
}

func containsAny(t *Term, m map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if m[t] {
			return true
		}
		if len(t.Args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---------- printing ----------

func show(t *Term) string {
	s := showD(t, 0)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func showD(t *Term, d int) string {
	if d > 12 {
		return "..."
	}
	if len(t.Vars) > 0 {
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(&b, "(%s %s)", v.Name, v.Sort)
		}
		b.WriteString(") " + showD(t.Args[0], d+1) + ")")
		return b.String()
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var b strings.Builder
	b.WriteString("(" + t.Op)
	for _, a := range t.Args {
		b.WriteString(" " + showD(a, d+1))
	}
	b.WriteString(")")
	return b.String()
}

func smtName(op string) string {
	for _, c := range op {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!@$%&*+-/<>=?~^", c)) {
			return "|" + op + "|"
		}
	}
	return op
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "select": true, "store": true, "+": true, "-": true, "*": true, "/": true, "<": true, "<=": true, ">": true, ">=": true, "to_real": true, "to_int": true, "div": true, "mod": true, "true": true, "false": true, "forall": true, "exists": true, "distinct": true}

func isBuiltin(op string) bool {
	return builtinOps[op] || strings.HasPrefix(op, "(") || op[0] >= '0' && op[0] <= '9'
}

type specErr string

func (s specErr) Error() string { return string(s) }

// tIdx: the position of element i of a slice with offset off. The sum is written with the function ix
// (defined as +) so that it can be used in triggers; parts of the offset other than the slice's own
// offset are added to i.
func tIdx(off, i *Term) *Term {
	if _, ok := intVal(off); ok {
		return tAdd(off, i)
	}
	var base *Term
	rest := tInt(0)
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "+" && len(t.Args) == 2 {
			walk(t.Args[0])
			walk(t.Args[1])
			return
		}
		if base == nil && (t.Op == "sl_off" || t == off) {
			base = t
			return
		}
		rest = tAdd(rest, t)
	}
	walk(off)
	if base == nil {
		base, rest = off, tInt(0)
	}
	if _, ok := funTab["ix"]; !ok {
		declFun("ix", []string{"Int", "Int"}, "Int")
		o, j := mkBV("?o$ix", "Int"), mkBV("?i$ix", "Int")
		l := tApp("ix", o, j)
		builtinAx = append(builtinAx, Axiom{"ix", mkQuant("forall", []QV{{o.Op, "Int"}, {j.Op, "Int"}}, [][]*Term{{l}}, tEq(l, mk("+", "Int", o, j))), "definition"})
	}
	return tApp("ix", base, tAdd(rest, i))
}
