package main

// SMT prelude, sort mapping of Go types, query assembly.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	declDatatype("F", dtCtor{"fin", []dtField{{"rv", "Real"}}}, dtCtor{"pinf", nil}, dtCtor{"ninf", nil}, dtCtor{"nan", nil})
	declDatatype("Slice", dtCtor{"mkslice", []dtField{{"sl_arr", "Int"}, {"sl_off", "Int"}, {"sl_len", "Int"}, {"sl_cap", "Int"}}})
	declDatatype("View", dtCtor{"mkview", []dtField{{"v_arr", "(Array Int Int)"}, {"v_lo", "Int"}, {"v_hi", "Int"}, {"v_idx", "(Array Int Int)"}}})
	for _, o := range []string{"fadd", "fsub", "fmul", "fdiv"} {
		declFun(o, []string{"F", "F"}, "F")
	}
	for _, o := range []string{"flt", "fle", "feq"} {
		declFun(o, []string{"F", "F"}, "Bool")
	}
	for _, o := range []string{"fneg", "fexp", "flog", "flog1p", "fsqrt", "fabs", "ffloor", "fround"} {
		declFun(o, []string{"F"}, "F")
	}
	declFun("rexp", []string{"Real"}, "Real")
	declFun("rln", []string{"Real"}, "Real")
	declFun("rsqrt", []string{"Real"}, "Real")
	declFun("rpow", []string{"Real", "Real"}, "Real")
	declFun("logr", []string{"Real"}, "F")
	declFun("expr", []string{"F"}, "Real")
	declFun("f2i", []string{"F"}, "Int")
	declFun("rtrunc", []string{"Real"}, "Int")
	declFun("tdiv", []string{"Int", "Int"}, "Int")
	declFun("tmod", []string{"Int", "Int"}, "Int")
	declFun("typeof", []string{"Int"}, "Int")
	declFun("boxint", []string{"Int"}, "Int")
	declFun("unboxint", []string{"Int"}, "Int")
	declFun("boxstr", []string{"Str"}, "Int")
	declFun("unboxstr", []string{"Int"}, "Str")
	declFun("boxf", []string{"F"}, "Int")
	declFun("unboxf", []string{"Int"}, "F")
	declFun("strcat", []string{"Str", "Str"}, "Str")
	declFun("strlen", []string{"Str"}, "Int")
	declFun("strat", []string{"Str", "Int"}, "Int")
	declFun("strlt", []string{"Str", "Str"}, "Bool")
	declFun("bitop", []string{"Int", "Int", "Int"}, "Int")
	declFun("shl", []string{"Int", "Int"}, "Int")
}

// definitions (define-fun) with dependencies
type prelDef struct {
	text string
	deps []string
}

var prelDefs = map[string]prelDef{
	"fadd":   {`(define-fun fadd ((x F) (y F)) F (ite (and ((_ is fin) x) ((_ is fin) y)) (fin (+ (rv x) (rv y))) (ite (or ((_ is nan) x) ((_ is nan) y)) nan (ite ((_ is pinf) x) (ite ((_ is ninf) y) nan pinf) (ite ((_ is ninf) x) (ite ((_ is pinf) y) nan ninf) y)))))`, nil},
	"fneg":   {`(define-fun fneg ((x F)) F (ite ((_ is fin) x) (fin (- (rv x))) (ite ((_ is pinf) x) ninf (ite ((_ is ninf) x) pinf nan))))`, nil},
	"fsub":   {`(define-fun fsub ((x F) (y F)) F (ite (and ((_ is fin) x) ((_ is fin) y)) (fin (- (rv x) (rv y))) (fadd x (fneg y))))`, []string{"fadd", "fneg"}},
	"fmul":   {`(define-fun fmul ((x F) (y F)) F (ite (and ((_ is fin) x) ((_ is fin) y)) (fin (* (rv x) (rv y))) (ite (or ((_ is nan) x) ((_ is nan) y)) nan (ite (or (= x (fin 0.0)) (= y (fin 0.0))) nan (ite (= (or ((_ is ninf) x) (and ((_ is fin) x) (< (rv x) 0.0))) (or ((_ is ninf) y) (and ((_ is fin) y) (< (rv y) 0.0)))) pinf ninf)))))`, nil},
	"fdiv":   {`(define-fun fdiv ((x F) (y F)) F (ite (and ((_ is fin) x) ((_ is fin) y)) (ite (= (rv y) 0.0) (ite (= (rv x) 0.0) nan (ite (> (rv x) 0.0) pinf ninf)) (fin (/ (rv x) (rv y)))) (ite (or ((_ is nan) x) ((_ is nan) y)) nan (ite ((_ is fin) x) (fin 0.0) (ite ((_ is fin) y) (ite (= ((_ is pinf) x) (>= (rv y) 0.0)) pinf ninf) nan)))))`, nil},
	"flt":    {`(define-fun flt ((x F) (y F)) Bool (ite (and ((_ is fin) x) ((_ is fin) y)) (< (rv x) (rv y)) (and (not ((_ is nan) x)) (not ((_ is nan) y)) (not (= x y)) (or ((_ is ninf) x) ((_ is pinf) y)))))`, nil},
	"fle":    {`(define-fun fle ((x F) (y F)) Bool (ite (and ((_ is fin) x) ((_ is fin) y)) (<= (rv x) (rv y)) (and (not ((_ is nan) x)) (not ((_ is nan) y)) (or (= x y) ((_ is ninf) x) ((_ is pinf) y)))))`, nil},
	"feq":    {`(define-fun feq ((x F) (y F)) Bool (and (= x y) (not ((_ is nan) x))))`, nil},
	"fexp":   {`(define-fun fexp ((x F)) F (ite ((_ is fin) x) (ite (> (rv x) 709.78) pinf (fin (rexp (rv x)))) (ite ((_ is ninf) x) (fin 0.0) x)))`, []string{"rexp"}},
	"flog":   {`(define-fun flog ((x F)) F (ite ((_ is fin) x) (ite (> (rv x) 0.0) (fin (rln (rv x))) (ite (= (rv x) 0.0) ninf nan)) (ite ((_ is ninf) x) nan x)))`, []string{"rln"}},
	"logr":   {`(define-fun logr ((x Real)) F (ite (> x 0.0) (fin (rln x)) ninf))`, []string{"rln"}},
	"expr":   {`(define-fun expr ((x F)) Real (ite ((_ is fin) x) (rexp (rv x)) 0.0))`, []string{"rexp"}},
	"flog1p": {`(define-fun flog1p ((x F)) F (ite ((_ is fin) x) (ite (> (rv x) (- 1.0)) (fin (rln (+ 1.0 (rv x)))) (ite (= (rv x) (- 1.0)) ninf nan)) (ite ((_ is ninf) x) nan x)))`, []string{"rln"}},
	"fsqrt":  {`(define-fun fsqrt ((x F)) F (ite ((_ is fin) x) (ite (>= (rv x) 0.0) (fin (rsqrt (rv x))) nan) (ite ((_ is pinf) x) pinf nan)))`, []string{"rsqrt"}},
	"fabs":   {`(define-fun fabs ((x F)) F (ite ((_ is fin) x) (fin (ite (< (rv x) 0.0) (- (rv x)) (rv x))) (ite ((_ is ninf) x) pinf x)))`, nil},
	"ffloor": {`(define-fun ffloor ((x F)) F (ite ((_ is fin) x) (fin (to_real (to_int (rv x)))) x))`, nil},
	"fround": {`(define-fun fround ((x F)) F (ite ((_ is fin) x) (fin (ite (>= (rv x) 0.0) (to_real (to_int (+ (rv x) 0.5))) (- (to_real (to_int (+ (- (rv x)) 0.5)))))) x))`, nil},
	"rtrunc": {`(define-fun rtrunc ((x Real)) Int (ite (>= x 0.0) (to_int x) (- (to_int (- x)))))`, nil},
	"tdiv":   {`(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))`, nil},
	"tmod":   {`(define-fun tmod ((x Int) (y Int)) Int (ite (>= x 0) (mod x y) (- (mod (- x) y))))`, nil},
}

var prelOrder = []string{"fadd", "fneg", "fsub", "fmul", "fdiv", "flt", "fle", "feq", "fexp", "flog", "logr", "expr", "flog1p", "fsqrt", "fabs", "ffloor", "fround", "rtrunc", "tdiv", "tmod"}

// float smart constructors
func isFin(t *Term) bool { return t.Op == "fin" }
func fFin(r *Term) *Term { return tCtor("fin", toReal(r)) }

var (
	fNinf = mk("ninf", "F")
	fPinf = mk("pinf", "F")
	fNan  = mk("nan", "F")
)

func tF2(op string, a, b *Term) *Term {
	if isFin(a) && isFin(b) {
		x, y := a.Args[0], b.Args[0]
		switch op {
		case "fadd":
			return fFin(tAdd(x, y))
		case "fsub":
			return fFin(tSub(x, y))
		case "fmul":
			return fFin(tMul(x, y))
		case "flt":
			return tCmp("<", x, y)
		case "fle":
			return tCmp("<=", x, y)
		case "feq":
			return tEq(x, y)
		case "fdiv":
			if v, ok := realVal(y); ok && v.Sign() != 0 {
				return fFin(tDivR(x, y))
			}
		}
	}
	return tApp(op, a, b)
}

// ---------- Go types to sorts ----------

type Val struct {
	T    *Term
	Ty   types.Type // may be nil for pure spec values
	Tup  []Val
	Fn   *FnVal
	Addr *Term // address of the boxed variable the value was read from (specifications only)
	Loc  bool  // T is the address of a boxed variable of type Ty (the value itself is in the heap)
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sanitize(s string) string {
	r := strings.NewReplacer(" ", "_", "*", "P", "[", "L", "]", "R", "{", "_", "}", "_", "(", "_", ")", "_", ";", "_", "\"", "_", "/", "_", ",", "_", "|", "_")
	return r.Replace(s)
}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "F"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return arrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		name := "T_" + sanitize(typeKey(t))
		if _, ok := datatypes[name]; !ok {
			var fs []dtField
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				fs = append(fs, dtField{fmt.Sprintf("%s.%d.%s", name, i, f.Name()), sortOf(f.Type())})
			}
			if len(fs) == 0 {
				fs = append(fs, dtField{name + ".unit", "Int"})
			}
			declDatatype(name, dtCtor{"mk" + name, fs})
			structSorts[name] = t
		}
		return name
	}
	panic(unsup("type " + typeKey(t)))
}

// structSorts: the Go type of a struct datatype
var structSorts = map[string]types.Type{}

func structFieldSel(t types.Type, i int) string {
	s := sortOf(t)
	return datatypes[s].Ctors[0].Fields[i].Name
}

var strLits = map[string]*Term{}
var strLitVal = map[string]string{}

func tStr(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	name := fmt.Sprintf("str$%d", len(strLits))
	t := mkConst(name, "Str")
	strLits[s] = t
	strLitVal[name] = s
	return t
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsFloat != 0:
			return fFin(tInt(0))
		case u.Info()&types.IsString != 0:
			return tStr("")
		}
		return tInt(0)
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return tInt(0)
	case *types.Slice:
		return tCtor("mkslice", tInt(0), tInt(0), tInt(0), tInt(0))
	case *types.Array:
		return tConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		s := sortOf(t)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		if len(args) == 0 {
			args = append(args, tInt(0))
		}
		return tCtor(datatypes[s].Ctors[0].Name, args...)
	}
	panic(unsup("zero of " + typeKey(t)))
}

type unsup string

func (u unsup) Error() string { return "unsupported: " + string(u) }

// ---------- queries ----------

type Axiom struct {
	Name string
	T    *Term
	Kind string // definition, assumption, lemma, wf
}

// symbols collects uninterpreted/defined symbols of t into m
func symbols(t *Term, m map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if !isBuiltin(t.Op) || strings.HasPrefix(t.Op, "(as const") {
		m[t.Op] = true
	}
	for _, a := range t.Args {
		symbols(a, m, seen)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			symbols(x, m, seen)
		}
	}
}

func patSyms(p []*Term) []string {
	m := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range p {
		symbols(t, m, seen)
	}
	var out []string
	for k := range m {
		if _, isbv := bvTab[k]; !isbv {
			out = append(out, k)
		}
	}
	return out
}

var axSymCache = map[*Term][]string{}

func axSyms(t *Term) []string {
	if s, ok := axSymCache[t]; ok {
		return s
	}
	m := map[string]bool{}
	symbols(t, m, map[*Term]bool{})
	var out []string
	for k := range m {
		if _, isbv := bvTab[k]; !isbv {
			out = append(out, k)
		}
	}
	axSymCache[t] = out
	return out
}

func expandPrel(m map[string]bool) {
	for ch := true; ch; {
		ch = false
		for k := range m {
			if d, ok := prelDefs[k]; ok {
				for _, x := range d.deps {
					if !m[x] {
						m[x] = true
						ch = true
					}
				}
			}
		}
	}
}

// buildQuery renders facts, relevant axioms and the negated goal.
func buildQuery(facts []*Term, goal *Term, axioms []Axiom) (string, []string) {
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, f := range facts {
		symbols(f, syms, seen)
	}
	if goal != nil {
		symbols(goal, syms, seen)
	}
	expandPrel(syms)
	used := make([]bool, len(axioms))
	var ax []*Term
	var axNames []string
	for ch := true; ch; {
		ch = false
		for i, a := range axioms {
			if used[i] {
				continue
			}
			rel := false
			if a.T.Op == "forall" && len(a.T.Pats) > 0 {
				for _, p := range a.T.Pats {
					all := true
					for _, s := range patSyms(p) {
						if !syms[s] {
							all = false
							break
						}
					}
					if all {
						rel = true
						break
					}
				}
			} else {
				for _, s := range axSyms(a.T) {
					if _, isF := funTab[s]; isF && prelDefs[s].text == "" && syms[s] && s != "typeof" {
						rel = true
						break
					}
					if strings.HasPrefix(s, "str$") {
						continue
					}
					if !isF2(s) && syms[s] {
						rel = true
						break
					}
				}
			}
			if rel {
				used[i] = true
				ch = true
				ax = append(ax, a.T)
				axNames = append(axNames, a.Name)
				symbols(a.T, syms, seen)
				expandPrel(syms)
			}
		}
	}
	all := append(append([]*Term{}, ax...), facts...)
	if goal != nil {
		all = append(all, tNot(goal))
	}
	// reference counts
	ref := map[*Term]int{}
	var cnt func(t *Term)
	cnt = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		for _, a := range t.Args {
			cnt(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				cnt(x)
			}
		}
	}
	for _, t := range all {
		cnt(t)
	}
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n")
	needDT := map[string]bool{"F": true, "Slice": true}
	for i := len(dtOrder) - 1; i >= 0; i-- {
		d := dtOrder[i]
		if needDT[d] || usesSort(syms, all, d) {
			needDT[d] = true
			for _, c := range datatypes[d].Ctors {
				for _, f := range c.Fields {
					for _, e := range dtOrder {
						if strings.Contains(f.Sort, e) {
							needDT[e] = true
						}
					}
				}
			}
		}
	}
	for _, d := range dtOrder {
		if !needDT[d] {
			continue
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", smtName(d))
		for _, c := range datatypes[d].Ctors {
			fmt.Fprintf(&b, "(%s", smtName(c.Name))
			for _, f := range c.Fields {
				fmt.Fprintf(&b, " (%s %s)", smtName(f.Name), smtSort(f.Sort))
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	var names []string
	for s := range syms {
		names = append(names, s)
	}
	sort.Strings(names)
	var lits []string
	declared := map[string]bool{}
	// uninterpreted functions first (definitions may use them)
	for _, s := range names {
		if _, ok := bvTab[s]; ok {
			continue
		}
		if sg, ok := funTab[s]; ok {
			if _, isdef := prelDefs[s]; isdef {
				continue
			}
			var as []string
			for _, a := range sg.args {
				as = append(as, smtSort(a))
			}
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(s), strings.Join(as, " "), smtSort(sg.ret))
			declared[s] = true
		}
	}
	for _, p := range prelOrder {
		if syms[p] {
			b.WriteString(prelDefs[p].text + "\n")
		}
	}
	// constants
	consts := map[string]string{}
	for t := range ref {
		if len(t.Args) == 0 && !isBuiltin(t.Op) && !isCtor(t.Op) {
			if _, ok := bvTab[t.Op]; ok {
				continue
			}
			if _, ok := funTab[t.Op]; ok {
				continue
			}
			consts[t.Op] = t.Sort
		}
	}
	var cn []string
	for c := range consts {
		cn = append(cn, c)
	}
	sort.Strings(cn)
	for _, c := range cn {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", smtName(c), smtSort(consts[c]))
		if strings.HasPrefix(c, "str$") {
			lits = append(lits, c)
		}
	}
	if len(lits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	// shared definitions
	named := map[*Term]string{}
	var shared []*Term
	for t, n := range ref {
		if n > 1 && len(t.Args) > 0 && len(t.free) == 0 && t.size > 3 {
			shared = append(shared, t)
		}
	}
	sort.Slice(shared, func(i, j int) bool { return shared[i].id < shared[j].id })
	// children have smaller ids than parents, except substituted quantifiers (still created later)
	var pr func(t *Term, top bool) string
	// a ground conditional inside a pattern gets a name of its own (conditionals are not allowed in patterns)
	var pending strings.Builder
	patName := map[*Term]string{}
	iteMemo := map[*Term]bool{}
	var hasIte func(t *Term) bool
	hasIte = func(t *Term) bool {
		if r, ok := iteMemo[t]; ok {
			return r
		}
		r := t.Op == "ite"
		for _, a := range t.Args {
			r = r || hasIte(a)
		}
		iteMemo[t] = r
		return r
	}
	var prPat func(t *Term) string
	prPat = func(t *Term) string {
		if len(t.Args) == 0 || !hasIte(t) || len(t.Vars) > 0 {
			return pr(t, false)
		}
		if len(t.free) == 0 {
			if n, ok := patName[t]; ok {
				return n
			}
			n := fmt.Sprintf("g$%d", t.id)
			patName[t] = n
			d := pr(t, false)
			fmt.Fprintf(&pending, "(declare-const %s %s)\n(assert (= %s %s))\n", n, smtSort(t.Sort), n, d)
			return n
		}
		op := t.Op
		if op == "ite" || strings.HasPrefix(op, "(") {
			return pr(t, false)
		}
		if !isBuiltin(op) {
			op = smtName(op)
		}
		var q strings.Builder
		q.WriteString("(" + op)
		for _, a := range t.Args {
			q.WriteString(" " + prPat(a))
		}
		q.WriteString(")")
		return q.String()
	}
	flush := func() {
		b.WriteString(pending.String())
		pending.Reset()
	}
	pr = func(t *Term, top bool) string {
		if !top {
			if n, ok := named[t]; ok {
				return n
			}
		}
		if len(t.Vars) > 0 {
			var q strings.Builder
			q.WriteString("(" + t.Op + " (")
			for _, v := range t.Vars {
				fmt.Fprintf(&q, "(%s %s)", smtName(v.Name), smtSort(v.Sort))
			}
			q.WriteString(") ")
			body := pr(t.Args[0], false)
			if len(t.Pats) > 0 {
				q.WriteString("(! " + body)
				for _, p := range t.Pats {
					q.WriteString(" :pattern (")
					for i, x := range p {
						if i > 0 {
							q.WriteString(" ")
						}
						q.WriteString(prPat(x))
					}
					q.WriteString(")")
				}
				q.WriteString(")")
			} else {
				q.WriteString(body)
			}
			q.WriteString(")")
			return q.String()
		}
		if len(t.Args) == 0 {
			if strings.HasPrefix(t.Op, "(") {
				return t.Op
			}
			return smtName(t.Op)
		}
		var q strings.Builder
		op := t.Op
		if strings.HasPrefix(op, "(as const ") {
			op = "(as const " + smtSort(t.Sort) + ")"
		} else if strings.HasPrefix(op, "(_ is ") {
			op = "(_ is " + smtName(op[6:len(op)-1]) + ")"
		} else if !isBuiltin(op) {
			op = smtName(op)
		}
		q.WriteString("(" + op)
		for _, a := range t.Args {
			q.WriteString(" " + pr(a, false))
		}
		q.WriteString(")")
		return q.String()
	}
	for _, t := range shared {
		n := fmt.Sprintf("t$%d", t.id)
		d := pr(t, true)
		flush()
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, smtSort(t.Sort), d)
		named[t] = n
	}
	for i, t := range all {
		if goal != nil && i == len(all)-1 {
			b.WriteString("; goal\n")
		}
		d := pr(t, false)
		flush()
		b.WriteString("(assert " + d + ")\n")
	}
	return b.String(), axNames
}

func isF2(s string) bool { _, ok := funTab[s]; return ok }

func smtSort(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		return "(Array " + smtSort(k) + " " + smtSort(v) + ")"
	}
	return smtName(s)
}

func usesSort(syms map[string]bool, all []*Term, d string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if strings.Contains(t.Sort, d) {
			return true
		}
		for _, v := range t.Vars {
			if strings.Contains(v.Sort, d) {
				return true
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range all {
		if rec(t) {
			return true
		}
	}
	for s := range syms {
		if sg, ok := funTab[s]; ok {
			if strings.Contains(sg.ret, d) {
				return true
			}
			for _, a := range sg.args {
				if strings.Contains(a, d) {
					return true
				}
			}
		}
	}
	return false
}
