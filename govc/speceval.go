package main

// Evaluation of specification expressions over a symbolic state.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type SpecCtx struct {
	x       *X
	st      *State
	old     *State
	pre     *State
	fr      *Frame
	pos     token.Pos
	loopEnd token.Pos
	binds   map[string]Val
	assume  bool
	depth   int
}

func (sc *SpecCtx) with(n string, v Val) *SpecCtx {
	c := *sc
	c.binds = make(map[string]Val, len(sc.binds)+1)
	for k, w := range sc.binds {
		c.binds[k] = w
	}
	c.binds[n] = v
	return &c
}

// trigTerms: the parts of a trigger that solvers accept (no connectives, no if-then-else).
func trigTerms(t *Term) []*Term {
	switch t.Op {
	case "and", "or", "not", "=>", "ite", "=", "<", "<=", ">", ">=", "distinct", "xor", "true", "false":
		var out []*Term
		seen := map[*Term]bool{}
		for _, a := range t.Args {
			for _, u := range trigTerms(a) {
				if !seen[u] && len(u.free) > 0 {
					seen[u] = true
					out = append(out, u)
				}
			}
		}
		return out
	}
	if len(t.free) == 0 && len(t.Args) == 0 {
		return nil
	}
	for _, a := range t.Args {
		if a.Op == "ite" || a.Op == "and" || a.Op == "or" {
			var out []*Term
			for _, b := range t.Args {
				out = append(out, trigTerms(b)...)
			}
			return out
		}
	}
	if t.Op == "var" || strings.HasPrefix(t.Op, "?") {
		return nil
	}
	return []*Term{t}
}

func sperr(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (x *X) goType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch s {
	case "int":
		return types.Typ[types.Int]
	case "uint8", "byte":
		return types.Typ[types.Uint8]
	case "uint64":
		return types.Typ[types.Uint64]
	case "float64", "F":
		return types.Typ[types.Float64]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "interface{}":
		return types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "[]") {
		t := x.goType(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if strings.HasPrefix(s, "*") {
		t := x.goType(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "map[") {
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					k, v := x.goType(s[4:i]), x.goType(s[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	}
	if t := x.prog.lookupType(s); t != nil {
		return t
	}
	if !strings.Contains(s, ".") {
		// an unqualified name: the contract's own package first, then a unique match
		if x.fi != nil {
			if o, ok := x.fi.Pkg.Types.Scope().Lookup(s).(*types.TypeName); ok {
				return o.Type()
			}
		}
		var found types.Type
		for _, p := range x.prog.ByPkg {
			if o, ok := p.Types.Scope().Lookup(s).(*types.TypeName); ok {
				if found != nil && found != o.Type() {
					sperr("ambiguous type name %s", s)
				}
				found = o.Type()
			}
		}
		return found
	}
	return nil
}

func (x *X) specSort(s string) (string, types.Type) {
	s = strings.TrimSpace(s)
	switch s {
	case "Real", "real":
		return "Real", nil
	case "View":
		return "View", nil
	case "ref", "Ref":
		return "Int", nil
	case "Slice":
		return "Slice", nil
	case "ver":
		return "Int", nil
	}
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		d := 0
		for i := 0; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					k, _ := x.specSort(s[1:i])
					v, _ := x.specSort(s[i+1:])
					return arrSort(k, v), nil
				}
			}
		}
	}
	t := x.goType(s)
	if t == nil {
		sperr("unknown type %q in specification", s)
	}
	return sortOf(t), t
}

func isInt(t *Term) bool { return t.Sort == "Int" }

func promote(a, b *Term) (*Term, *Term) {
	if a.Sort == b.Sort {
		return a, b
	}
	if a.Sort == "F" && (b.Sort == "Int" || b.Sort == "Real") {
		return a, fFin(b)
	}
	if b.Sort == "F" && (a.Sort == "Int" || a.Sort == "Real") {
		return fFin(a), b
	}
	if a.Sort == "Real" && b.Sort == "Int" {
		return a, toReal(b)
	}
	if b.Sort == "Real" && a.Sort == "Int" {
		return toReal(a), b
	}
	sperr("operands of different sorts: %s (%s) and %s (%s)", show(a), a.Sort, show(b), b.Sort)
	return nil, nil
}

func (sc *SpecCtx) lookup(name string) (Val, bool) {
	x := sc.x
	if v, ok := sc.binds[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return Val{T: tTrue, Ty: types.Typ[types.Bool]}, true
	case "false":
		return Val{T: tFalse, Ty: types.Typ[types.Bool]}, true
	case "nil":
		return Val{T: tInt(0), Ty: types.Typ[types.UntypedNil]}, true
	case "NInf":
		return Val{T: fNinf, Ty: types.Typ[types.Float64]}, true
	case "PInf":
		return Val{T: fPinf, Ty: types.Typ[types.Float64]}, true
	case "NaN":
		return Val{T: fNan, Ty: types.Typ[types.Float64]}, true
	case "$alloc":
		return Val{T: sc.st.alloc, Ty: types.Typ[types.Int]}, true
	}
	if strings.HasPrefix(name, "$") && sc.st != nil {
		if v, ok := sc.st.loopk[name]; ok {
			return v, true
		}
	}
	if sc.st != nil {
		if v, ok := sc.st.gv[name]; ok {
			return v, true
		}
	}
	if sc.fr != nil && sc.st != nil {
		// contract parameter names denote the current Go variable
		if x.con != nil {
			for i, p := range x.con.Params {
				if p == name && i < len(x.paramObj) && x.paramObj[i] != nil {
					if _, ok := sc.st.env[x.paramObj[i]]; ok {
						return x.varVal(sc.st, x.paramObj[i]), true
					}
				}
				if p == name && i < len(x.params) {
					return x.params[i], true
				}
			}
		}
		pos := sc.loopEnd
		if !pos.IsValid() {
			pos = sc.pos
		}
		for f := sc.fr; f != nil; f = f.parent {
			if pos.IsValid() {
				if s := f.pkg.Types.Scope().Innermost(pos); s != nil {
					if _, o := s.LookupParent(name, pos); o != nil {
						switch o := o.(type) {
						case *types.Var:
							if o.Parent() == o.Pkg().Scope() {
								return x.load(sc.st, &LV{kind: "glob", comp: compGlob(o), ty: o.Type()}, pos), true
							}
							if _, ok := sc.st.env[o]; ok {
								return x.varVal(sc.st, o), true
							}
							sperr("variable %s has no value here", name)
						case *types.Const:
							if v, ok := x.constVal(types.TypeAndValue{Type: o.Type(), Value: o.Val()}); ok {
								return v, true
							}
						}
					}
				}
			}
			// the lexical frame of a closure comes next
			pos = token.NoPos
			if f.parent != nil {
				pos = f.parent.pos
			}
		}
	}
	return Val{}, false
}

func (sc *SpecCtx) global(name string) (Val, bool) {
	i := strings.Index(name, ".")
	if i < 0 {
		return Val{}, false
	}
	p := sc.x.prog.ByPkg[name[:i]]
	if p == nil {
		return Val{}, false
	}
	switch o := p.Types.Scope().Lookup(name[i+1:]).(type) {
	case *types.Var:
		return sc.x.load(sc.st, &LV{kind: "glob", comp: compGlob(o), ty: o.Type()}, token.NoPos), true
	case *types.Const:
		return sc.x.constVal(types.TypeAndValue{Type: o.Type(), Value: o.Val()})
	}
	return Val{}, false
}

func (sc *SpecCtx) eval(e *SExpr) Val {
	x := sc.x
	if sc.depth > 60 {
		sperr("specification macro recursion")
	}
	boolT := types.Typ[types.Bool]
	switch e.Op {
	case "id":
		v, ok := sc.lookup(e.Name)
		if !ok {
			sperr("unknown name %q", e.Name)
		}
		return v
	case "int":
		n, _ := new(big.Int).SetString(e.Name, 10)
		return Val{T: tBig(n), Ty: types.Typ[types.Int]}
	case "real":
		r, _ := new(big.Rat).SetString(e.Name)
		return Val{T: tReal(r)}
	case "str":
		return Val{T: tStr(e.Name), Ty: types.Typ[types.String]}
	case "un":
		v := sc.eval(e.Args[0])
		if e.Name == "!" {
			return Val{T: tNot(v.T), Ty: boolT}
		}
		if v.T.Sort == "F" {
			return Val{T: tApp("fneg", v.T), Ty: v.Ty}
		}
		return Val{T: tNeg(v.T), Ty: v.Ty}
	case "bin":
		return sc.evalBin(e)
	case "forall", "exists":
		c := sc
		var qs []QV
		for _, v := range e.Vars {
			srt, ty := x.specSort(v.Type)
			b := mkBV(freshName("?"+v.Name), srt)
			qs = append(qs, QV{b.Op, srt})
			c = c.with(v.Name, Val{T: b, Ty: ty})
		}
		body := c.eval(e.Args[0]).T
		var pats [][]*Term
		for _, tr := range e.Trig {
			var p []*Term
			for _, t := range tr {
				p = append(p, trigTerms(c.eval(t).T)...)
			}
			pats = append(pats, p)
		}
		return Val{T: mkQuant(e.Op, qs, pats, body), Ty: boolT}
	case "let":
		v := sc.eval(e.Args[0])
		return sc.with(e.Name, v).eval(e.Args[1])
	case "index":
		if e.Args[0].Op == "id" {
			if c, ok := sc.ghostField(e.Args[0].Name); ok {
				if _, bound := sc.binds[e.Args[0].Name]; !bound {
					return Val{T: tSel(x.comp(sc.st, c), sc.eval(e.Args[1]).T)}
				}
			}
		}
		b := sc.eval(e.Args[0])
		i := sc.eval(e.Args[1])
		return sc.index(b, i)
	case "sel":
		// qualified package name?
		if e.Args[0].Op == "id" {
			if _, ok := sc.lookupQuiet(e.Args[0].Name); !ok {
				if v, ok := sc.global(e.Args[0].Name + "." + e.Name); ok {
					return v
				}
			}
		}
		b := sc.eval(e.Args[0])
		return sc.field(b, e.Name)
	case "call":
		return sc.call(e)
	}
	sperr("bad expression %s", e.Op)
	return Val{}
}

func (sc *SpecCtx) lookupQuiet(n string) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return sc.lookup(n)
}

func (sc *SpecCtx) index(b, i Val) Val {
	x := sc.x
	if b.Ty != nil {
		switch u := b.Ty.Underlying().(type) {
		case *types.Slice:
			return Val{T: tSel(tSel(x.comp(sc.st, compElem(u.Elem())), tField("sl_arr", b.T)), tIdx(tField("sl_off", b.T), i.T)), Ty: u.Elem()}
		case *types.Map:
			if b.T.Sort == "Int" {
				return Val{T: tSel(x.mapVals(sc.st, b.T, b.Ty), i.T), Ty: u.Elem()}
			}
		case *types.Array:
			return Val{T: tSel(b.T, i.T), Ty: u.Elem()}
		}
	}
	if strings.HasPrefix(b.T.Sort, "(Array ") {
		return Val{T: tSel(b.T, i.T), Ty: elemTy(b)}
	}
	sperr("cannot index %s", show(b.T))
	return Val{}
}

// element Go type of a ghost array value (kept in Tup[0].Ty when known)
func elemTy(b Val) types.Type {
	if len(b.Tup) > 0 {
		return b.Tup[0].Ty
	}
	return nil
}

func namedPkg(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (sc *SpecCtx) ghostField(name string) (string, bool) {
	for _, ts := range sc.x.specs.Types {
		for _, g := range ts.Ghost {
			if g.Name == name {
				srt, _ := sc.x.specSort(g.Type)
				return compGhost(name, srt), true
			}
		}
	}
	return "", false
}

func (sc *SpecCtx) field(b Val, name string) Val {
	x := sc.x
	if b.T.Sort == "View" {
		switch name {
		case "arr", "lo", "hi", "idx":
			return Val{T: tField("v_"+name, b.T)}
		}
	}
	if c, ok := sc.ghostField(name); ok && b.Addr != nil && b.T.Sort != "Int" {
		return Val{T: tSel(x.comp(sc.st, c), b.Addr)}
	}
	if c, ok := sc.ghostField(name); ok && b.T.Sort == "Int" {
		return Val{T: tSel(x.comp(sc.st, c), b.T)}
	}
	if b.Ty == nil {
		b.Ty = structSorts[b.T.Sort]
	}
	if b.Ty == nil {
		sperr("field %s of untyped value %s", name, show(b.T))
	}
	if _, isP := b.Ty.Underlying().(*types.Pointer); isP {
		c, ref, ft, isStruct := sc.ptrField(b, name)
		if isStruct {
			return Val{T: ref, Ty: types.NewPointer(ft)}
		}
		return Val{T: tSel(x.comp(sc.st, c), ref), Ty: ft}
	}
	obj, idx, _ := types.LookupFieldOrMethod(b.Ty, true, namedPkg(b.Ty), name)
	if _, ok := obj.(*types.Var); !ok {
		sperr("no field %s in %s", name, typeKey(b.Ty))
	}
	t, ty := b.T, b.Ty
	for n, i := range idx {
		s, ok := ty.Underlying().(*types.Struct)
		if !ok {
			if p, isP := ty.Underlying().(*types.Pointer); isP {
				_ = p
				return sc.field(Val{T: t, Ty: ty}, name)
			}
			sperr("field path %s", name)
		}
		_ = n
		t = tField(structFieldSel(ty, i), t)
		ty = s.Field(i).Type()
	}
	return Val{T: t, Ty: ty}
}

func (sc *SpecCtx) ptrField(b Val, name string) (comp string, ref *Term, ft types.Type, isStruct bool) {
	x := sc.x
	el := b.Ty.Underlying().(*types.Pointer).Elem()
	obj, idx, _ := types.LookupFieldOrMethod(b.Ty, true, namedPkg(b.Ty), name)
	if _, ok := obj.(*types.Var); !ok {
		sperr("no field %s in %s", name, typeKey(b.Ty))
	}
	ref = b.T
	ty := el
	for n, i := range idx {
		s, ok := ty.Underlying().(*types.Struct)
		if !ok {
			sperr("field path %s", name)
		}
		f := s.Field(i)
		if _, isS := f.Type().Underlying().(*types.Struct); isS && f.Embedded() {
			ty = f.Type()
			if n == len(idx)-1 {
				return "", ref, ty, true
			}
			continue
		}
		c := compField(ty, f)
		if n == len(idx)-1 {
			return c, ref, f.Type(), false
		}
		// embedded pointer
		if p, isP := f.Type().Underlying().(*types.Pointer); isP {
			ref = tSel(x.comp(sc.st, c), ref)
			ty = p.Elem()
			continue
		}
		sperr("field path %s", name)
	}
	return
}

func (sc *SpecCtx) fieldLoc(e *SExpr) (string, *Term) {
	if e.Args[0].Op == "id" {
		if _, ok := sc.lookupQuiet(e.Args[0].Name); !ok {
			if p := sc.x.prog.ByPkg[e.Args[0].Name]; p != nil {
				if o, ok := p.Types.Scope().Lookup(e.Name).(*types.Var); ok {
					return compGlob(o), tInt(0)
				}
			}
		}
	}
	b := sc.eval(e.Args[0])
	if c, ok := sc.ghostField(e.Name); ok {
		return c, b.T
	}
	if b.Ty == nil {
		sperr("modifies of untyped value")
	}
	if _, ok := b.Ty.Underlying().(*types.Pointer); !ok {
		sperr("modifies %s: not a pointer", e.Name)
	}
	c, ref, _, _ := sc.ptrField(b, e.Name)
	return c, ref
}

func (sc *SpecCtx) evalBin(e *SExpr) Val {
	boolT := types.Typ[types.Bool]
	op := e.Name
	switch op {
	case "&&", "||", "==>", "<==>":
		a := sc.eval(e.Args[0]).T
		if op == "&&" && a == tFalse {
			return Val{T: tFalse, Ty: boolT}
		}
		b := sc.eval(e.Args[1]).T
		if a.Sort != "Bool" || b.Sort != "Bool" {
			sperr("non-boolean operand of %s: %s / %s", op, show(a), show(b))
		}
		switch op {
		case "&&":
			return Val{T: tAnd(a, b), Ty: boolT}
		case "||":
			return Val{T: tOr(a, b), Ty: boolT}
		case "==>":
			return Val{T: tImp(a, b), Ty: boolT}
		}
		return Val{T: tEq(a, b), Ty: boolT}
	}
	av, bv := sc.eval(e.Args[0]), sc.eval(e.Args[1])
	if op == "==" || op == "!=" {
		var t *Term
		if isNilVal(av) || isNilVal(bv) {
			o := av
			if isNilVal(av) {
				o = bv
			}
			if o.T.Sort == "Slice" {
				t = tEq(tField("sl_arr", o.T), tInt(0))
			} else {
				t = tEq(o.T, tInt(0))
			}
		} else {
			a, b := promote(av.T, bv.T)
			t = tEq(a, b)
		}
		if op == "!=" {
			t = tNot(t)
		}
		return Val{T: t, Ty: boolT}
	}
	a, b := promote(av.T, bv.T)
	ty := av.Ty
	if ty == nil {
		ty = bv.Ty
	}
	if a.Sort == "F" {
		switch op {
		case "+":
			return Val{T: tF2("fadd", a, b), Ty: ty}
		case "-":
			return Val{T: tF2("fsub", a, b), Ty: ty}
		case "*":
			return Val{T: tF2("fmul", a, b), Ty: ty}
		case "/":
			return Val{T: tF2("fdiv", a, b), Ty: ty}
		case "<":
			return Val{T: tF2("flt", a, b), Ty: boolT}
		case "<=":
			return Val{T: tF2("fle", a, b), Ty: boolT}
		case ">":
			return Val{T: tF2("flt", b, a), Ty: boolT}
		case ">=":
			return Val{T: tF2("fle", b, a), Ty: boolT}
		}
	}
	switch op {
	case "+":
		return Val{T: tAdd(a, b), Ty: ty}
	case "-":
		return Val{T: tSub(a, b), Ty: ty}
	case "*":
		return Val{T: tMul(a, b), Ty: ty}
	case "/":
		if a.Sort == "Int" {
			return Val{T: tApp("tdiv", a, b), Ty: ty}
		}
		return Val{T: tDivR(a, b), Ty: ty}
	case "%":
		return Val{T: tApp("tmod", a, b), Ty: ty}
	case "<", "<=", ">", ">=":
		return Val{T: tCmp(op, a, b), Ty: boolT}
	}
	sperr("operator %s", op)
	return Val{}
}

func isNilVal(v Val) bool {
	return v.Ty != nil && isNilType(v.Ty)
}

func (sc *SpecCtx) call(e *SExpr) Val {
	x := sc.x
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	arg := func(i int) Val {
		if i >= len(e.Args) {
			sperr("%s: missing argument", e.Name)
		}
		return sc.eval(e.Args[i])
	}
	switch e.Name {
	case "old":
		c := *sc
		c.st = sc.old
		if sc.st != nil && sc.old != nil && sc.st != sc.old {
			// ghost variables have no value at entry: their current one is meant
			t := *sc.old
			t.gv = sc.st.gv
			c.st = &t
		}
		return c.eval(e.Args[0])
	case "pre":
		c := *sc
		if sc.pre == nil {
			sperr("pre() outside a loop")
		}
		c.st = sc.pre
		return c.eval(e.Args[0])
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		at, bt := promote(a.T, b.T)
		ty := a.Ty
		if isNilVal(a) {
			ty = b.Ty
		}
		return Val{T: tIte(c.T, at, bt), Ty: ty}
	case "len":
		v := arg(0)
		if v.T.Sort == "Slice" {
			return Val{T: tField("sl_len", v.T), Ty: intT}
		}
		if v.T.Sort == "Str" {
			return Val{T: tApp("strlen", v.T), Ty: intT}
		}
		if v.Ty != nil {
			if m, ok := v.Ty.Underlying().(*types.Map); ok {
				x.fins(sc.st, sortOf(m.Key()), x.mapDom(sc.st, v.T, v.Ty))
				return Val{T: tApp(cardFn(sortOf(m.Key())), x.mapDom(sc.st, v.T, v.Ty)), Ty: intT}
			}
			if a, ok := v.Ty.Underlying().(*types.Array); ok {
				return Val{T: tInt(a.Len()), Ty: intT}
			}
		}
		sperr("len of %s", show(v.T))
	case "card":
		v := arg(0)
		ks, _ := arrSorts(v.T.Sort)
		return Val{T: tApp(cardFn(ks), v.T), Ty: intT}
	case "finite":
		v := arg(0)
		ks, _ := arrSorts(v.T.Sort)
		return Val{T: tApp(cardFn(ks)+"$fin", v.T), Ty: boolT}
	case "cap":
		return Val{T: tField("sl_cap", arg(0).T), Ty: intT}
	case "arr":
		return Val{T: tField("sl_arr", arg(0).T), Ty: intT}
	case "off":
		return Val{T: tField("sl_off", arg(0).T), Ty: intT}
	case "elems":
		v := arg(0)
		sl, ok := v.Ty.Underlying().(*types.Slice)
		if !ok {
			sperr("elems of %s", show(v.T))
		}
		a := tSel(x.comp(sc.st, compElem(sl.Elem())), tField("sl_arr", v.T))
		return Val{T: tShift(a, tField("sl_off", v.T)), Tup: []Val{{Ty: sl.Elem()}}}
	case "dom":
		v := arg(0)
		return Val{T: x.mapDom(sc.st, v.T, v.Ty)}
	case "mval":
		v := arg(0)
		_, vt := mapKV(v.Ty)
		return Val{T: x.mapVals(sc.st, v.T, v.Ty), Tup: []Val{{Ty: vt}}}
	case "get":
		m, k := arg(0), arg(1)
		_, vt := mapKV(m.Ty)
		return Val{T: tIte(tSel(x.mapDom(sc.st, m.T, m.Ty), k.T), tSel(x.mapVals(sc.st, m.T, m.Ty), k.T), zeroOf(vt)), Ty: vt}
	case "in":
		k, m := arg(0), arg(1)
		if m.Ty != nil {
			if _, ok := m.Ty.Underlying().(*types.Map); ok {
				return Val{T: tSel(x.mapDom(sc.st, m.T, m.Ty), k.T), Ty: boolT}
			}
		}
		return Val{T: tSel(m.T, k.T), Ty: boolT}
	case "fresh":
		v := arg(0)
		r := v.T
		if r.Sort == "Slice" {
			r = tField("sl_arr", r)
		}
		return Val{T: tLe(sc.old.alloc, r), Ty: boolT}
	case "freshpre":
		v := arg(0)
		r := v.T
		if r.Sort == "Slice" {
			r = tField("sl_arr", r)
		}
		return Val{T: tLe(sc.pre.alloc, r), Ty: boolT}
	case "allocated":
		v := arg(0)
		r := v.T
		if r.Sort == "Slice" {
			r = tField("sl_arr", r)
		}
		return Val{T: tLt(r, sc.st.alloc), Ty: boolT}
	case "typeis":
		v := arg(0)
		t := x.goType(e.Args[1].Name)
		if t == nil {
			sperr("unknown type %s", e.Args[1].Name)
		}
		return Val{T: x.typeIs(sc.st, v.T, t), Ty: boolT}
	case "as":
		t := x.goType(e.Args[0].Name)
		if t == nil {
			sperr("unknown type %s", e.Args[0].Name)
		}
		v := arg(1)
		return Val{T: v.T, Ty: t}
	case "box":
		// box("int", e): e as an interface value
		if t := x.goType(e.Args[0].Name); t != types.Typ[types.Int] {
			sperr("box: only int")
		}
		return Val{T: tApp("boxint", arg(1).T), Ty: types.NewInterfaceType(nil, nil)}
	case "unbox":
		t := x.goType(e.Args[0].Name)
		return x.unboxIface(arg(1), t)
	case "fld":
		nm := e.Args[0].Name
		x.touchComp("f." + nm)
		ci := comps["f."+nm]
		if ci == nil {
			sperr("unknown field %s", nm)
		}
		return Val{T: tSel(x.comp(sc.st, "f."+nm), arg(1).T), Ty: ci.Val}
	case "ghostmap":
		c, ok := sc.ghostField(e.Args[0].Name)
		if !ok {
			sperr("unknown ghost field %s", e.Args[0].Name)
		}
		return Val{T: x.comp(sc.st, c)}
	case "row":
		// row(T, ref): contents of the backing array ref with element type T
		t := x.goType(e.Args[0].Name)
		return Val{T: tSel(x.comp(sc.st, compElem(t)), arg(1).T), Tup: []Val{{Ty: t}}}
	case "fin":
		return Val{T: tIs("fin", arg(0).T), Ty: boolT}
	case "isnan":
		return Val{T: tIs("nan", arg(0).T), Ty: boolT}
	case "rv":
		v := arg(0)
		if v.T.Sort == "Real" {
			return v
		}
		return Val{T: tField("rv", v.T)}
	case "F":
		v := arg(0)
		if v.T.Sort == "F" {
			return v
		}
		return Val{T: fFin(v.T), Ty: types.Typ[types.Float64]}
	case "real":
		return Val{T: toReal(arg(0).T)}
	case "mkslice":
		return Val{T: tCtor("mkslice", arg(0).T, arg(1).T, arg(2).T, arg(3).T)}
	case "mkview":
		return Val{T: tCtor("mkview", arg(0).T, arg(1).T, arg(2).T, arg(3).T)}
	case "store":
		a := arg(0)
		_, vs := arrSorts(a.T.Sort)
		v := arg(2).T
		if vs == "F" && v.Sort != "F" {
			v = fFin(v)
		}
		return Val{T: tStore(a.T, arg(1).T, v), Tup: a.Tup}
	case "constarr":
		srt, _ := x.specSort(e.Args[0].Name)
		return Val{T: tConstArr(srt, arg(1).T)}
	case "shift":
		a := arg(0)
		return Val{T: tShift(a.T, arg(1).T), Tup: a.Tup}
	case "typeof":
		return Val{T: tTypeof(arg(0).T), Ty: intT}
	case "typeid":
		t := x.goType(e.Args[0].Name)
		return Val{T: typeId(t), Ty: intT}
	case "implements":
		t := x.goType(e.Args[1].Name)
		return Val{T: x.implPred(t, arg(0).T), Ty: boolT}
	case "exp":
		return Val{T: tApp("rexp", arg(0).T)}
	case "ln":
		return Val{T: tApp("rln", arg(0).T)}
	case "fexp", "flog", "fsqrt", "fabs", "logr", "expr", "rsqrt", "ffloor", "flog1p", "strlt", "fround":
		var as []*Term
		for i := range e.Args {
			as = append(as, arg(i).T)
		}
		v := Val{T: tApp(e.Name, as...)}
		if v.T.Sort == "F" {
			v.Ty = types.Typ[types.Float64]
		}
		return v
	case "trunc":
		return Val{T: tApp("rtrunc", arg(0).T), Ty: intT}
	case "struct":
		// struct("pkg.T", args...)
		t := x.goType(e.Args[0].Name)
		srt := sortOf(t)
		var as []*Term
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i).T)
		}
		return Val{T: tCtor(datatypes[srt].Ctors[0].Name, as...), Ty: t}
	}
	fd := x.specs.Defs[e.Name]
	if fd == nil {
		sperr("unknown function %q in specification", e.Name)
	}
	if len(e.Args) != len(fd.Params) {
		sperr("%s: %d arguments, want %d", e.Name, len(e.Args), len(fd.Params))
	}
	var args []Val
	for i := range e.Args {
		v := arg(i)
		srt, ty := x.specSort(fd.Params[i].Type)
		if v.T.Sort != srt {
			switch {
			case srt == "Real" && v.T.Sort == "Int":
				v = Val{T: toReal(v.T)}
			case srt == "F" && (v.T.Sort == "Int" || v.T.Sort == "Real"):
				v = Val{T: fFin(v.T)}
			default:
				sperr("%s argument %d has sort %s, want %s", e.Name, i+1, v.T.Sort, srt)
			}
		}
		if ty != nil {
			v.Ty = ty
		}
		args = append(args, v)
	}
	if fd.Kind == "def" {
		c := *sc
		c.depth++
		c.fr = nil
		c.binds = map[string]Val{}
		for i, p := range fd.Params {
			c.binds[p.Name] = args[i]
		}
		return c.eval(fd.Body)
	}
	return x.appFun(fd, sc.st, args)
}

func (x *X) declSpecFun(fd *FunDecl) {
	name := "u$" + fd.Name
	if _, ok := funTab[name]; ok {
		return
	}
	var as []string
	if fd.State {
		as = append(as, "Int")
	}
	for _, p := range fd.Params {
		s, _ := x.specSort(p.Type)
		as = append(as, s)
	}
	r, _ := x.specSort(fd.Ret)
	declFun(name, as, r)
}

func (x *X) appFun(fd *FunDecl, st *State, args []Val) Val {
	x.declSpecFun(fd)
	x.needTheory(fd.Theory)
	var as []*Term
	if fd.State {
		if st == nil {
			sperr("state function %s outside a state", fd.Name)
		}
		as = append(as, x.versionOf(fd, st))
	}
	for _, a := range args {
		as = append(as, a.T)
	}
	_, ty := x.specSort(fd.Ret)
	return Val{T: tApp("u$"+fd.Name, as...), Ty: ty}
}

// ---------- theories ----------

func (x *X) needTheory(n string) {
	if n == "" || x.thDone[n] {
		return
	}
	th := x.specs.Theories[n]
	if th == nil {
		sperr("unknown theory %s", n)
	}
	x.thDone[n] = true
	x.theory = append(x.theory, n)
	for _, u := range th.Uses {
		x.needTheory(u)
	}
}

// pureAxioms: axioms of a theory which do not depend on the state.
func (x *X) theoryAxioms(n string, upto *Lemma) []Axiom {
	th := x.specs.Theories[n]
	var out []Axiom
	sc := &SpecCtx{x: x, binds: map[string]Val{}, assume: true}
	for i, a := range th.Axioms {
		out = append(out, Axiom{"axiom " + n + ": " + clauseName(a), sc.eval(a.E).T, th.AxKind[i]})
	}
	for _, fd := range th.Funs {
		if fd.State || fd.Opaque && (upto == nil || upto.Theory != n) {
			continue
		}
		for _, a := range fd.Axioms {
			out = append(out, Axiom{"axiom " + fd.Name + ": " + clauseName(a), sc.eval(a.E).T, "definition"})
		}
	}
	for _, l := range th.Lemmas {
		if upto != nil && l.Seq >= upto.Seq {
			break
		}
		if l.NoAuto {
			continue
		}
		c := sc
		var qs []QV
		for _, v := range l.Params {
			srt, ty := x.specSort(v.Type)
			b := mkBV(freshName("?"+v.Name), srt)
			qs = append(qs, QV{b.Op, srt})
			c = c.with(v.Name, Val{T: b, Ty: ty})
		}
		var req, ens []*Term
		for _, r := range l.Req {
			req = append(req, c.eval(r.E).T)
		}
		for _, r := range l.Ens {
			ens = append(ens, c.eval(r.E).T)
		}
		var p []*Term
		for _, t := range l.Trig {
			p = append(p, trigTerms(c.eval(t).T)...)
		}
		var pats [][]*Term
		if p != nil {
			pats = [][]*Term{p}
		}
		out = append(out, Axiom{"lemma " + l.Name, mkQuant("forall", qs, pats, tImp(tAnd(req...), tAnd(ens...))), "lemma"})
	}
	return out
}

// applyLemma: check the lemma's requirements for the given arguments, then assume its conclusion.
func (x *X) applyLemma(st *State, sc *SpecCtx, e *SExpr, pos token.Pos) {
	if e.Op == "forall" {
		// forall-application: not supported with requirements that depend on bound variables unless guarded
		sperr("apply: expected a lemma call")
	}
	cond := tTrue
	if e.Op == "bin" && e.Name == "==>" {
		cond = sc.eval(e.Args[0]).T
		e = e.Args[1]
	}
	if e.Op != "call" {
		sperr("apply: expected a lemma call")
	}
	l := x.specs.lemma(e.Name)
	if l == nil {
		sperr("unknown lemma %s", e.Name)
	}
	x.needTheory(l.Theory)
	x.lemUsed[l.Name] = true
	c := &SpecCtx{x: x, st: st, old: sc.old, binds: map[string]Val{}}
	if len(e.Args) != len(l.Params) {
		sperr("lemma %s: wrong number of arguments", e.Name)
	}
	for i, p := range l.Params {
		v := sc.eval(e.Args[i])
		srt, ty := x.specSort(p.Type)
		if srt == "Real" && v.T.Sort == "Int" {
			v.T = toReal(v.T)
		}
		if srt == "F" && v.T.Sort != "F" {
			v.T = fFin(v.T)
		}
		if v.T.Sort != srt {
			sperr("lemma %s argument %d: sort %s want %s", e.Name, i+1, v.T.Sort, srt)
		}
		if ty != nil {
			v.Ty = ty
		}
		c.binds[p.Name] = v
	}
	if cur := x.curLemma; cur != nil {
		if l.Seq > cur.Seq {
			sperr("lemma %s uses the later lemma %s", cur.Name, l.Name)
		}
		if l == cur {
			if l.Induct == "" {
				sperr("lemma %s uses itself without an induction variable", l.Name)
			}
			n := sc.binds[l.Induct].T
			x.oblige(st, "recursive use of lemma "+l.Name+" is for a smaller argument", "lemma-pre", pos, tImp(cond, tAnd(tLt(c.binds[l.Induct].T, n), tLt(tInt(0), n))))
		}
	}
	for _, r := range l.Req {
		t := tImp(cond, c.eval(r.E).T)
		x.oblige(st, "requirement of lemma "+l.Name+": "+clauseName(r), "lemma-pre", pos, t)
	}
	for _, r := range l.Ens {
		st.assume(tImp(cond, c.eval(r.E).T))
	}
}

func (sp *Specs) lemma(n string) *Lemma {
	for _, th := range sp.Theories {
		for _, l := range th.Lemmas {
			if l.Name == n {
				return l
			}
		}
	}
	return nil
}

// ---------- versions of state functions ----------

type version struct {
	id    *Term
	st    *State
	alloc *Term
	log   *WEnt
}

func (x *X) versionOf(fd *FunDecl, st *State) *Term {
	th := x.specs.Theories[fd.Theory]
	foot := map[string]bool{}
	for _, f := range th.Funs {
		for _, c := range f.Foot {
			foot[c] = true
		}
	}
	vs := x.versions[fd.Theory]
	for i := len(vs) - 1; i >= 0; i-- {
		v := vs[i]
		if x.sameVersion(v, st, foot) {
			return v.id
		}
	}
	v := &version{id: mkConst(freshName("ver."+fd.Theory), "Int"), st: st.clone(), alloc: st.alloc, log: st.log}
	x.versions[fd.Theory] = append(x.versions[fd.Theory], v)
	x.verById[v.id] = v
	// definitional axioms of the theory's state functions in this state
	sc := &SpecCtx{x: x, st: v.st, old: v.st, binds: map[string]Val{}, assume: true}
	for _, f := range th.Funs {
		if !f.State {
			continue
		}
		for _, a := range f.Axioms {
			x.verAx = append(x.verAx, Axiom{"axiom " + f.Name + ": " + clauseName(a), sc.eval(a.E).T, "definition"})
		}
	}
	return v.id
}

func (x *X) sameVersion(v *version, st *State, foot map[string]bool) bool {
	for l := st.log; l != v.log; l = l.Prev {
		if l == nil {
			return false
		}
		if !foot[l.Comp] {
			continue
		}
		if l.Wild {
			return false
		}
		var ts []*Term
		if l.Havoc {
			ts = l.Inv
			if l.Since != nil && !x.isFresh(l.Since, v.alloc) {
				return false
			}
		} else {
			ts = []*Term{l.Target}
		}
		for _, t := range ts {
			for _, lf := range iteLeaves(t) {
				if !x.isFresh(lf, v.alloc) {
					return false
				}
			}
		}
	}
	return true
}

// unfoldRec adds the defining equations of recursive functions at their ground applications.
func (x *X) unfoldRec(terms []*Term, depth int) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var level []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.Op, "u$") && len(t.free) == 0 {
			if fd := x.specs.Defs[t.Op[2:]]; fd != nil && fd.Kind == "rec" && !done[t] {
				done[t] = true
				level = append(level, t)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range terms {
		walk(t)
	}
	for d := 0; d < depth && len(level) > 0; d++ {
		cur := level
		level = nil
		for _, t := range cur {
			if d > 0 {
				// only unfold further at numerals
				ok := false
				for _, a := range t.Args {
					if _, isN := intVal(a); isN {
						ok = true
					}
				}
				if !ok && d > 0 {
					continue
				}
			}
			fd := x.specs.Defs[t.Op[2:]]
			args := t.Args
			var st *State
			if fd.State {
				v := x.verById[args[0]]
				if v == nil {
					continue
				}
				st = v.st
				args = args[1:]
			}
			sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
			for i, p := range fd.Params {
				_, ty := x.specSort(p.Type)
				sc.binds[p.Name] = Val{T: args[i], Ty: ty}
			}
			eq := tEq(t, sc.eval(fd.Body).T)
			if eq != tTrue {
				out = append(out, eq)
				walk(eq)
			}
		}
	}
	return out
}
