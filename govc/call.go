package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func (x *X) call(fr *Frame, st *State, e *ast.CallExpr, k func(*State, []Val)) {
	tvF := fr.info.Types[e.Fun]
	// conversion
	if tvF.IsType() {
		x.eval(fr, st, e.Args[0], func(s *State, v Val) {
			k(s, []Val{x.convert(s, v, fr.info.TypeOf(e.Args[0]), tvF.Type, e.Pos())})
		})
		return
	}
	if tvF.IsBuiltin() {
		x.builtin(fr, st, e, k)
		return
	}
	fun := ast.Unparen(e.Fun)
	// method call
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := fr.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			x.methodCall(fr, st, e, se, sel, k)
			return
		}
	}
	x.eval(fr, st, fun, func(s1 *State, f Val) {
		x.evalArgs(fr, s1, e, f.sigOf(fr.info.TypeOf(fun)), func(s2 *State, args []Val) {
			x.callFn(fr, s2, f, args, e, k)
		})
	})
}

func (v Val) sigOf(t types.Type) *types.Signature {
	return t.Underlying().(*types.Signature)
}

func (x *X) evalArgs(fr *Frame, st *State, e *ast.CallExpr, sig *types.Signature, k func(*State, []Val)) {
	fin := func(s *State, vs []Val) {
		n := sig.Params().Len()
		var out []Val
		if sig.Variadic() && !e.Ellipsis.IsValid() {
			for i := 0; i < n-1; i++ {
				out = append(out, x.convertAssign(s, vs[i], sig.Params().At(i).Type()))
			}
			stt := sig.Params().At(n - 1).Type().(*types.Slice)
			extra := vs[n-1:]
			if len(extra) == 0 {
				out = append(out, Val{T: zeroOf(stt), Ty: stt})
			} else {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsup); !ok {
								panic(r)
							}
							// values that cannot be represented (only matters for printing)
							out = append(out, Val{T: mkConst(freshName("varargs"), "Slice"), Ty: stt})
						}
					}()
					r := x.newRef(s)
					arr := tConstArr(arrSort("Int", sortOf(stt.Elem())), zeroOf(stt.Elem()))
					for i, v := range extra {
						arr = tStore(arr, tInt(int64(i)), x.convertAssign(s, v, stt.Elem()).T)
					}
					c := compElem(stt.Elem())
					old := x.repOK
					x.repOK = true
					x.write(s, c, r, arr)
					x.repOK = old
					ln := tInt(int64(len(extra)))
					out = append(out, Val{T: tCtor("mkslice", r, tInt(0), ln, ln), Ty: stt})
				}()
			}
		} else {
			for i := range vs {
				out = append(out, x.convertAssign(s, vs[i], sig.Params().At(i).Type()))
			}
		}
		k(s, out)
	}
	if len(e.Args) == 1 {
		x.evalMulti(fr, st, e.Args[0], fin)
		return
	}
	x.evalRest(fr, st, e.Args, nil, fin)
}

func (x *X) methodCall(fr *Frame, st *State, e *ast.CallExpr, se *ast.SelectorExpr, sel *types.Selection, k func(*State, []Val)) {
	f := sel.Obj().(*types.Func)
	sig := f.Type().(*types.Signature)
	recvT := sig.Recv().Type()
	xt := fr.info.TypeOf(se.X)
	idx := sel.Index()
	withRecv := func(s *State, r Val) {
		x.evalArgs(fr, s, e, sig, func(s2 *State, args []Val) {
			x.callFunc(fr, s2, f, append([]Val{r}, args...), e, k)
		})
	}
	_, recvPtr := recvT.Underlying().(*types.Pointer)
	_, recvIface := recvT.Underlying().(*types.Interface)
	if recvIface && len(idx) == 1 {
		x.eval(fr, st, se.X, func(s *State, v Val) {
			x.nonNil(s, v.T, exprStr(se.X), e.Pos())
			withRecv(s, Val{T: v.T, Ty: xt})
		})
		return
	}
	// walk the embedding path
	walk := func(s *State, lv *LV) {
		for _, i := range idx[:len(idx)-1] {
			lv = x.stepField(s, lv, i, e.Pos())
		}
		if recvPtr {
			switch lv.kind {
			case "struct":
				withRecv(s, Val{T: lv.ref, Ty: recvT})
			default:
				if _, isP := lv.ty.Underlying().(*types.Pointer); isP {
					v := x.load(s, lv, e.Pos())
					withRecv(s, Val{T: v.T, Ty: recvT})
					return
				}
				panic(unsup("pointer method on non-addressable value " + exprStr(se)))
			}
			return
		}
		if p, isP := lv.ty.Underlying().(*types.Pointer); isP && !recvIface {
			v := x.load(s, lv, e.Pos())
			x.nonNil(s, v.T, exprStr(se.X), e.Pos())
			lv = &LV{kind: "struct", ref: v.T, ty: p.Elem()}
			if _, isS := p.Elem().Underlying().(*types.Struct); !isS {
				lv = x.refLV(v.T, p.Elem())
			}
		}
		v := x.load(s, lv, e.Pos())
		withRecv(s, Val{T: v.T, Ty: recvT})
	}
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		x.eval(fr, st, se.X, func(s *State, v Val) {
			if len(idx) == 1 && recvPtr {
				x.nonNil(s, v.T, exprStr(se.X), e.Pos())
				withRecv(s, Val{T: v.T, Ty: recvT})
				return
			}
			x.nonNil(s, v.T, exprStr(se.X), e.Pos())
			walk(s, x.refLV(v.T, p.Elem()))
		})
		return
	}
	x.evalLV(fr, st, se.X, walk)
}

func (x *X) callFn(fr *Frame, st *State, f Val, args []Val, e *ast.CallExpr, k func(*State, []Val)) {
	if f.Fn == nil {
		panic(unsup("call of unknown function value " + exprStr(e.Fun)))
	}
	fn := f.Fn
	switch {
	case fn.Lit != nil:
		x.inline(fr, st, fn.Lit.Body, fn.Fr.pkg, fn.Sig, nil, fn.Lit, fn.Fr, args, e.Pos(), k)
	case fn.Obj != nil:
		x.callFunc(fr, st, fn.Obj, args, e, k)
	default:
		// unknown function parameter: arbitrary result, assumed not to modify the heap
		x.assumes["function parameter "+fn.Unk+" has no effect on the heap"] = true
		var rs []Val
		for i := 0; i < fn.Sig.Results().Len(); i++ {
			t := fn.Sig.Results().At(i).Type()
			v := Val{T: mkConst(freshName("fnres"), sortOf(t)), Ty: t}
			st.assume(x.wfVal(v.T, t, st.alloc, true))
			rs = append(rs, v)
		}
		if fn.Tag != "" {
			if g, ok := st.gv["calls_"+fn.Tag]; ok {
				hi := tField("v_hi", g.T)
				st.gv["calls_"+fn.Tag] = Val{T: tCtor("mkview", tStore(tField("v_arr", g.T), hi, args[0].T), tField("v_lo", g.T), tAdd(hi, tInt(1)), tStore(tField("v_idx", g.T), args[0].T, hi))}
				if r, ok := st.gv["res_"+fn.Tag]; ok && len(rs) == 1 {
					st.gv["res_"+fn.Tag] = Val{T: tStore(r.T, hi, rs[0].T), Tup: r.Tup}
				}
			}
		}
		k(st, rs)
	}
}

func (x *X) contractFor(f *types.Func) (*Contract, *FuncInfo) {
	key := funcKey(f)
	fi := x.prog.ByObj[f]
	if c, ok := x.specs.Contracts[key]; ok && !c.Inline {
		return c, fi
	}
	if fi == nil {
		fi = x.prog.Funcs["stubs."+strings.Replace(key, ".", "_", -1)]
	}
	return nil, fi
}

func (x *X) callFunc(fr *Frame, st *State, f *types.Func, args []Val, e *ast.CallExpr, k func(*State, []Val)) {
	con, fi := x.contractFor(f)
	if con != nil && fi != nil && fi.Decl.Body != nil {
		// a closure argument: the body is taken instead of the contract, which knows nothing about the closure
		for _, a := range args {
			if a.Fn != nil && a.Fn.Lit != nil {
				con = nil
			}
		}
	}
	if con != nil && !(x.forceInline(con)) {
		x.callContract(fr, st, con, f, args, e.Pos(), k)
		return
	}
	if fi != nil && fi.Decl.Body != nil {
		if fi.Pkg.Name == "stubs" {
			x.assumes["external function "+funcKey(f)+" behaves as its stand-in in contracts/stubs"] = true
		} else {
			x.inlined[fi.Key] = true
		}
		x.inline(fr, st, fi.Decl.Body, fi.Pkg, fi.Sig, fi, nil, nil, args, e.Pos(), k)
		return
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Interface); ok && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), x.prog.Mod) {
			x.dispatch(fr, st, f, args, e, k)
			return
		}
	}
	x.external(fr, st, f, args, e, k)
}

// methods of an encapsulated type see each other's bodies
func (x *X) forceInline(c *Contract) bool { return x.repOK && c.RepOK }

// dispatch: interface method without a contract; fork over the implementing methods (closed world).
func (x *X) dispatch(fr *Frame, st *State, f *types.Func, args []Val, e *ast.CallExpr, k func(*State, []Val)) {
	it := f.Type().(*types.Signature).Recv().Type()
	impls := x.prog.implementers(it)
	if len(impls) == 0 {
		panic(unsup("no implementation of " + funcKey(f)))
	}
	type grp struct {
		fn *types.Func
		ts []types.Type
	}
	var gs []*grp
	for _, t := range impls {
		obj, _, _ := types.LookupFieldOrMethod(t, true, f.Pkg(), f.Name())
		m, ok := obj.(*types.Func)
		if !ok {
			panic(unsup("dispatch " + funcKey(f)))
		}
		found := false
		for _, g := range gs {
			if g.fn == m {
				g.ts = append(g.ts, t)
				found = true
			}
		}
		if !found {
			gs = append(gs, &grp{m, []types.Type{t}})
		}
	}
	var step func(s *State, i int)
	step = func(s *State, i int) {
		g := gs[i]
		run := func(s *State) {
			a := append([]Val{}, args...)
			rt := g.fn.Type().(*types.Signature).Recv().Type()
			if _, isP := rt.Underlying().(*types.Pointer); !isP {
				a[0] = x.unboxIface(a[0], rt)
			} else {
				a[0] = Val{T: a[0].T, Ty: rt}
			}
			x.callFunc(fr, s, g.fn, a, e, k)
		}
		if i == len(gs)-1 {
			run(s)
			return
		}
		var cs []*Term
		for _, t := range g.ts {
			cs = append(cs, tEq(tTypeof(args[0].T), typeId(t)))
		}
		x.branch(s, tOr(cs...), run, func(b *State) { step(b, i+1) })
	}
	x.assumes["closed world: the dynamic type of "+typeKey(it)+" is one of its implementations in the repository"] = true
	step(st, 0)
}

// ---------- contracts at call sites ----------

func (x *X) bindParams(con *Contract, args []Val) map[string]Val {
	b := map[string]Val{}
	for i, n := range con.Params {
		if i < len(args) {
			b[n] = args[i]
		}
	}
	return b
}

func (x *X) callContract(fr *Frame, st *State, con *Contract, f *types.Func, args []Val, pos token.Pos, k func(*State, []Val)) {
	key := con.Key
	x.deps[key] = true
	if con.Trusted != "" {
		x.trusted[key] = con.Trusted
	}
	sig := f.Type().(*types.Signature)
	binds := x.bindParams(con, args)
	var old *State
	if x.dry == 0 {
		if x.con != nil {
			for _, c := range x.con.CallAsserts[key] {
				sc := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, binds: map[string]Val{}, pos: pos}
				for i := range args {
					sc.binds[fmt.Sprintf("$arg%d", i)] = args[i]
				}
				t := sc.eval(c.E).T
				x.oblige(st, "assertion before "+key+": "+c.Src, "assert", pos, t)
			}
			for _, a := range x.con.CallApplies[key] {
				sc := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, binds: x.bindParams(x.con, x.params), pos: pos}
				for i := range args {
					sc.binds[fmt.Sprintf("$arg%d", i)] = args[i]
				}
				x.applyLemma(st, sc, a, pos)
			}
		}
		if sig.Recv() != nil && len(args) > 0 {
			if t := x.promoted(f, args[0].T); t != tTrue {
				x.oblige(st, "receiver type of "+key, "pre", pos, t)
			}
		}
		for i, c := range con.Requires {
			sc := &SpecCtx{x: x, st: st, old: st, binds: binds}
			t := sc.eval(c.E).T
			lab := fmt.Sprintf("precondition %d of %s: %s", i+1, key, clauseName(c))
			x.oblige(st, lab, "pre", pos, t)
		}
		if con.Dec != nil && x.con != nil && x.con.Dec != nil && (con == x.con || x.sameRec(con)) {
			sc := &SpecCtx{x: x, st: st, old: st, binds: binds}
			d1 := sc.eval(con.Dec).T
			sc0 := &SpecCtx{x: x, st: x.entry, old: x.entry, binds: x.bindParams(x.con, x.params)}
			d0 := sc0.eval(x.con.Dec).T
			x.oblige(st, "termination measure decreases at call of "+key, "termination", pos, tAnd(tLe(tInt(0), d1), tLt(d1, d0)))
		}
	}
	old = st.clone()
	// effects
	fresh := x.summaryOf(con, f)
	x.applyEffects(st, con, binds, old, fresh)
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := Val{T: mkConst(freshName("ret."+f.Name()), sortOf(t)), Ty: t}
		st.assume(x.wfVal(v.T, t, st.alloc, true))
		rs = append(rs, v)
		if i < len(con.Results) {
			binds[con.Results[i]] = v
		}
	}
	// the ghost variables of the callee: some values, constrained by its postconditions
	for _, g := range con.GVars {
		srt, ty := x.specSort(g.Type)
		binds[g.Name] = Val{T: mkConst(freshName("gv."+g.Name), srt), Ty: ty}
	}
	if x.dry == 0 {
		for _, c := range con.Ensures {
			if c.More && (x.con == nil || !x.con.Reveal[key]) {
				continue
			}
			sc := &SpecCtx{x: x, st: st, old: old, binds: binds, assume: true}
			st.assume(sc.eval(c.E).T)
		}
		if x.con != nil {
			for _, g := range x.con.CallUpd[key] {
				sc := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, binds: map[string]Val{}, pos: pos}
				for i := range args {
					sc.binds[fmt.Sprintf("$arg%d", i)] = args[i]
				}
				for i := range rs {
					sc.binds[fmt.Sprintf("$res%d", i)] = rs[i]
				}
				for _, cg := range con.GVars {
					sc.binds["$gv_"+cg.Name] = binds[cg.Name]
				}
				v := sc.eval(g.RHS)
				st.gv[g.LHS.Name] = v
			}
			for _, a := range x.con.AfterApplies[key] {
				sc := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, binds: x.bindParams(x.con, x.params), pos: pos}
				for i := range args {
					sc.binds[fmt.Sprintf("$arg%d", i)] = args[i]
				}
				for i := range rs {
					sc.binds[fmt.Sprintf("$res%d", i)] = rs[i]
				}
				x.applyLemma(st, sc, a, pos)
			}
			for _, c := range x.con.AfterAsserts[key] {
				sc := &SpecCtx{x: x, st: st, old: x.entry, fr: fr, binds: x.bindParams(x.con, x.params), pos: pos}
				for i := range args {
					sc.binds[fmt.Sprintf("$arg%d", i)] = args[i]
				}
				for i := range rs {
					sc.binds[fmt.Sprintf("$res%d", i)] = rs[i]
				}
				t := sc.eval(c.E).T
				x.oblige(st, fmt.Sprintf("assertion after %s: %s", key, clauseName(c)), "assert", pos, t)
				st.assume(t)
			}
		}
	} else if x.con != nil {
		for _, g := range x.con.CallUpd[key] {
			if cur, ok := st.gv[g.LHS.Name]; ok {
				st.gv[g.LHS.Name] = Val{T: mkConst(freshName("gv"), cur.T.Sort), Ty: cur.Ty}
			}
		}
	}
	k(st, rs)
}

func clauseName(c Clause) string {
	if c.Label != "" {
		return c.Label
	}
	return c.Src
}

func (x *X) sameRec(con *Contract) bool {
	// the interface method being implemented, or a method implementing it
	return x.con != nil && (x.con.Like == con.Key || con.Like == x.con.Key || (x.con.Like != "" && x.con.Like == con.Like))
}

// applyEffects havocs what the callee may modify.
func (x *X) applyEffects(st *State, con *Contract, binds map[string]Val, old *State, fresh map[string]bool) {
	type tgt struct {
		ref *Term
		all bool
	}
	mods := map[string][]tgt{}
	for _, m := range con.Modifies {
		for _, l := range x.modTargets(m, old, binds) {
			mods[l.comp] = append(mods[l.comp], tgt{l.ref, l.all})
		}
	}
	names := map[string]bool{}
	for c := range mods {
		names[c] = true
	}
	for c := range fresh {
		if comps[c] != nil {
			names[c] = true
		}
	}
	var order []string
	for c := range names {
		order = append(order, c)
	}
	sort.Strings(order)
	pre := st.alloc
	if len(fresh) > 0 {
		x.newAlloc(st)
	}
	for _, c := range order {
		ci := comps[c]
		cur := x.comp(st, c)
		if ci.Kind == "glob" {
			n := mkConst(freshName("H."+sanitize(c)), ci.Sort)
			st.heap[c] = n
			st.assume(x.wfVal(n, ci.Val, st.alloc, true))
			st.addLog(WEnt{Comp: c, Target: tInt(0)})
			continue
		}
		all := false
		var refs []*Term
		for _, t := range mods[c] {
			if t.all {
				all = true
			} else {
				refs = append(refs, t.ref)
			}
		}
		if all {
			n := mkConst(freshName("H."+sanitize(c)), ci.Sort)
			st.heap[c] = n
			x.wfComp(c, n, st.alloc)
			st.addLog(WEnt{Comp: c, Havoc: true, Wild: true})
			continue
		}
		if !fresh[c] && len(refs) == 1 {
			_, vs := arrSorts(ci.Sort)
			v := mkConst(freshName("hv."+sanitize(c)), vs)
			if ci.Kind == "elem" {
				// the nil slice has no elements to write
				st.assume(tImp(tEq(refs[0], tInt(0)), tEq(v, tSel(cur, tInt(0)))))
			}
			st.heap[c] = tStore(cur, refs[0], v)
			if ci.Kind == "field" || ci.Kind == "cell" {
				st.assume(x.wfVal(v, ci.Val, st.alloc, true))
			}
			st.addLog(WEnt{Comp: c, Target: refs[0]})
			continue
		}
		n := mkConst(freshName("H."+sanitize(c)), ci.Sort)
		st.heap[c] = n
		x.wfComp(c, n, st.alloc)
		st.assume(frameAxiom(n, cur, refs, pre))
		if ci.Kind == "elem" {
			st.assume(tEq(tSel(n, tInt(0)), tSel(cur, tInt(0))))
		}
		ent := WEnt{Comp: c, Havoc: true, Inv: refs}
		if fresh[c] {
			ent.Since = pre
		}
		st.addLog(ent)
	}
}

// frameAxiom: forall r < pre, r not in refs: n[r] == cur[r]
func frameAxiom(n, cur *Term, refs []*Term, pre *Term) *Term {
	r := mkBV(freshName("?r"), "Int")
	hyp := []*Term{}
	if pre != nil {
		hyp = append(hyp, tLt(r, pre))
	}
	for _, t := range refs {
		hyp = append(hyp, tNot(tEq(r, t)))
	}
	return mkQuant("forall", []QV{{r.Op, "Int"}}, [][]*Term{{tSel(n, r)}}, tImp(tAnd(hyp...), tEq(tSel(n, r), tSel(cur, r))))
}

type modLoc struct {
	comp string
	ref  *Term
	all  bool
}

// modTargets evaluates a modifies expression.
func (x *X) modTargets(m *SExpr, st *State, binds map[string]Val) []modLoc {
	sc := &SpecCtx{x: x, st: st, old: st, binds: binds}
	switch {
	case m.Op == "call" && m.Name == "elems":
		v := sc.eval(m.Args[0])
		el := v.Ty.Underlying().(*types.Slice).Elem()
		return []modLoc{{comp: compElem(el), ref: tField("sl_arr", v.T)}}
	case m.Op == "call" && m.Name == "map":
		v := sc.eval(m.Args[0])
		return []modLoc{{comp: compMD(v.Ty), ref: v.T}, {comp: compMV(v.Ty), ref: v.T}}
	case m.Op == "call" && m.Name == "all":
		x.touchComp(m.Args[0].Name)
		if comps[m.Args[0].Name] == nil {
			panic(specErr("unknown component " + m.Args[0].Name))
		}
		return []modLoc{{comp: m.Args[0].Name, all: true}}
	case m.Op == "call" && m.Name == "allmaps":
		// allmaps(expr of map type): every map of that type
		v := sc.eval(m.Args[0])
		return []modLoc{{comp: compMD(v.Ty), all: true}, {comp: compMV(v.Ty), all: true}}
	case m.Op == "call" && m.Name == "allelems":
		v := sc.eval(m.Args[0])
		return []modLoc{{comp: compElem(v.Ty.Underlying().(*types.Slice).Elem()), all: true}}
	case m.Op == "call" && m.Name == "fld":
		nm := m.Args[0].Name
		x.touchComp("f." + nm)
		v := sc.eval(m.Args[1])
		return []modLoc{{comp: "f." + nm, ref: v.T}}
	case m.Op == "sel":
		c, ref := sc.fieldLoc(m)
		return []modLoc{{comp: c, ref: ref}}
	}
	panic(specErr("unsupported modifies expression"))
}

// touchComp makes sure the component named "f.pkg.Type.field" is registered.
func (x *X) touchComp(name string) {
	if comps[name] != nil {
		return
	}
	if strings.HasPrefix(name, "f.") {
		parts := strings.Split(name[2:], ".")
		if len(parts) == 3 {
			t := x.prog.lookupType(parts[0] + "." + parts[1])
			if t != nil {
				if s, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == parts[2] {
							compField(t, s.Field(i))
						}
					}
				}
			}
		}
	}
	if strings.HasPrefix(name, "e.") {
		if t := x.goType(name[2:]); t != nil {
			compElem(t)
		}
	}
	if strings.HasPrefix(name, "g.") {
		parts := strings.Split(name[2:], ".")
		if p := x.prog.ByPkg[parts[0]]; p != nil {
			if v, ok := p.Types.Scope().Lookup(parts[1]).(*types.Var); ok {
				compGlob(v)
			}
		}
	}
}

// ---------- summaries: which components a function allocates into ----------

var summaries = map[string]map[string]bool{}
var summBusy = map[string]bool{}

func (x *X) summaryOf(con *Contract, f *types.Func) map[string]bool {
	if s, ok := summaries[con.Key]; ok {
		return s
	}
	if con.Pure {
		return map[string]bool{}
	}
	out := map[string]bool{}
	if con.Trusted != "" || summBusy[con.Key] {
		for _, a := range con.Allocs {
			x.touchComp(a)
			out[a] = true
		}
		for c := range x.ghostComps(con) {
			out[c] = true
		}
		if con.Trusted != "" {
			summaries[con.Key] = out
		}
		return out
	}
	summBusy[con.Key] = true
	defer delete(summBusy, con.Key)
	var impls []*types.Func
	sig := f.Type().(*types.Signature)
	isIface := false
	if sig.Recv() != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Interface); ok {
			isIface = true
			for _, t := range x.prog.implementers(sig.Recv().Type()) {
				obj, _, _ := types.LookupFieldOrMethod(t, true, f.Pkg(), f.Name())
				if m, ok := obj.(*types.Func); ok {
					impls = append(impls, m)
				}
			}
		}
	}
	if !isIface {
		impls = []*types.Func{f}
	}
	for _, m := range impls {
		mc := con
		if isIface {
			if c2, _ := x.contractFor(m); c2 != nil {
				for c := range x.summaryOf(c2, m) {
					out[c] = true
				}
				continue
			}
		}
		fi := x.prog.ByObj[m]
		if fi == nil || fi.Decl.Body == nil {
			continue
		}
		for c := range x.drySummary(fi, mc) {
			out[c] = true
		}
	}
	for _, a := range con.Allocs {
		x.touchComp(a)
		out[a] = true
	}
	for c := range x.ghostComps(con) {
		out[c] = true
	}
	summaries[con.Key] = out
	return out
}

// ghostComps: the ghost heap components the contract assigns (of new objects, where not listed as modified).
func (x *X) ghostComps(con *Contract) map[string]bool {
	out := map[string]bool{}
	add := func(gs []GhostSet) {
		for _, g := range gs {
			n := ""
			switch {
			case g.LHS.Op == "index" && g.LHS.Args[0].Op == "id":
				n = g.LHS.Args[0].Name
			case g.LHS.Op == "call" && g.LHS.Name == "all":
				n = g.LHS.Args[0].Name
			case g.LHS.Op != "id":
				n = g.LHS.Name
			}
			if n == "" {
				continue
			}
			if c, ok := (&SpecCtx{x: x}).ghostField(n); ok {
				out[c] = true
			}
		}
	}
	add(con.Ghost)
	for _, l := range con.Loops {
		add(l.Step)
		add(l.Init)
	}
	for _, u := range con.CallUpd {
		add(u)
	}
	return out
}

func (x *X) drySummary(fi *FuncInfo, con *Contract) (res map[string]bool) {
	res = map[string]bool{}
	y := newX(x.prog, x.specs)
	y.fi = fi
	y.con = con
	y.dry = 1
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				return
			}
			if _, ok := r.(specErr); ok {
				return
			}
			panic(r)
		}
	}()
	y.repOK = true
	st := y.initState(fi)
	fr := (*Frame)(nil)
	y.inline(fr, st, fi.Decl.Body, fi.Pkg, fi.Sig, fi, nil, nil, y.params, token.NoPos, func(s *State, _ []Val) {
		for l := s.log; l != nil; l = l.Prev {
			if l.Havoc {
				if l.Since != nil || l.Wild {
					res[l.Comp] = true
				}
				continue
			}
			for _, leaf := range iteLeaves(l.Target) {
				if y.isFresh(leaf, y.alloc0) {
					res[l.Comp] = true
				}
			}
		}
		if s.alloc != y.alloc0 {
			res["$alloc"] = true
		}
	})
	return res
}

func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

// ---------- conversions and builtins ----------

func (x *X) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	if v.Fn != nil {
		v.Ty = to
		return v
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		v.Ty = from
		return x.convertAssign(st, v, to)
	}
	if isNilType(from) {
		return Val{T: zeroOf(to), Ty: to}
	}
	fs, ts := v.T.Sort, sortOf(to)
	if fs == ts {
		if fs == "Int" {
			tb, ok := to.Underlying().(*types.Basic)
			if ok && tb.Info()&types.IsUnsigned != 0 {
				fb, _ := from.Underlying().(*types.Basic)
				if fb == nil || fb.Info()&types.IsUnsigned == 0 {
					x.oblige(st, "conversion to unsigned of a non-negative value", "overflow", pos, tLe(tInt(0), v.T))
				}
			}
			if w, n := intBits(to), intBits(from); ok && w < n {
				lo, hi := int64(0), int64(1)<<uint(w)
				if tb.Info()&types.IsUnsigned == 0 {
					lo, hi = -(int64(1) << uint(w-1)), int64(1)<<uint(w-1)
				}
				x.oblige(st, "narrowing conversion keeps the value", "overflow", pos, tAnd(tLe(tInt(lo), v.T), tLt(v.T, tInt(hi))))
			}
		}
		if strings.HasPrefix(fs, "T_") {
			panic(unsup("struct conversion"))
		}
		return Val{T: v.T, Ty: to}
	}
	if fs == "Int" && ts == "F" {
		return Val{T: fFin(v.T), Ty: to}
	}
	if fs == "F" && ts == "Int" {
		return Val{T: tIte(tIs("fin", v.T), tApp("rtrunc", tField("rv", v.T)), tApp("f2i", v.T)), Ty: to}
	}
	if strings.HasPrefix(fs, "T_") && strings.HasPrefix(ts, "T_") {
		// identical underlying struct types
		var args []*Term
		for i := range datatypes[fs].Ctors[0].Fields {
			args = append(args, tField(datatypes[fs].Ctors[0].Fields[i].Name, v.T))
		}
		return Val{T: tCtor(datatypes[ts].Ctors[0].Name, args...), Ty: to}
	}
	panic(unsup(fmt.Sprintf("conversion %s -> %s", typeKey(from), typeKey(to))))
}

func (x *X) builtin(fr *Frame, st *State, e *ast.CallExpr, k func(*State, []Val)) {
	name := ""
	switch f := ast.Unparen(e.Fun).(type) {
	case *ast.Ident:
		name = f.Name
	default:
		panic(unsup("builtin " + exprStr(e.Fun)))
	}
	rt := fr.info.TypeOf(e)
	one := func(s *State, t *Term) { k(s, []Val{{T: t, Ty: rt}}) }
	switch name {
	case "len", "cap":
		at := fr.info.TypeOf(e.Args[0])
		x.eval(fr, st, e.Args[0], func(s *State, v Val) {
			switch u := at.Underlying().(type) {
			case *types.Slice:
				if name == "len" {
					one(s, tField("sl_len", v.T))
				} else {
					one(s, tField("sl_cap", v.T))
				}
			case *types.Map:
				t := tApp(cardFn(sortOf(u.Key())), x.mapDom(s, v.T, at))
				x.fins(s, sortOf(u.Key()), x.mapDom(s, v.T, at))
				s.assume(tLe(tInt(0), t))
				one(s, t)
			case *types.Array:
				one(s, tInt(u.Len()))
			case *types.Basic:
				t := tApp("strlen", v.T)
				s.assume(tLe(tInt(0), t))
				one(s, t)
			default:
				panic(unsup("len of " + typeKey(at)))
			}
		})
	case "make":
		t := fr.info.TypeOf(e.Args[0])
		x.evalRest(fr, st, e.Args[1:], nil, func(s *State, vs []Val) {
			r := x.newRef(s)
			switch u := t.Underlying().(type) {
			case *types.Slice:
				n := vs[0].T
				c := n
				if len(vs) > 1 {
					c = vs[1].T
				}
				x.panicOb(s, "make with non-negative length", e.Pos(), tAnd(tLe(tInt(0), n), tLe(n, c)))
				x.write(s, compElem(u.Elem()), r, tConstArr(arrSort("Int", sortOf(u.Elem())), zeroOf(u.Elem())))
				one(s, tCtor("mkslice", r, tInt(0), n, c))
			case *types.Map:
				x.write(s, compMD(t), r, tConstArr(arrSort(sortOf(u.Key()), "Bool"), tFalse))
				x.write(s, compMV(t), r, tConstArr(arrSort(sortOf(u.Key()), sortOf(u.Elem())), zeroOf(u.Elem())))
				one(s, r)
			default:
				panic(unsup("make " + typeKey(t)))
			}
		})
	case "new":
		t := fr.info.TypeOf(e.Args[0])
		r := x.newRef(st)
		x.initRef(st, r, t, zeroOf(t))
		one(st, r)
	case "append":
		x.evalRest(fr, st, e.Args, nil, func(s *State, vs []Val) {
			el := rt.Underlying().(*types.Slice).Elem()
			sl := vs[0].T
			if isNilType(fr.info.TypeOf(e.Args[0])) {
				sl = zeroOf(rt)
			}
			if e.Ellipsis.IsValid() {
				src := vs[1].T
				if src.Sort == "Str" {
					panic(unsup("append of a string"))
				}
				one(s, x.appendSlice(s, sl, src, el, fr.info.TypeOf(e.Args[1]).Underlying().(*types.Slice).Elem()))
				return
			}
			for _, v := range vs[1:] {
				sl = x.appendOne(s, sl, x.convertAssign(s, v, el).T, el)
			}
			one(s, sl)
		})
	case "copy":
		x.evalRest(fr, st, e.Args, nil, func(s *State, vs []Val) {
			dt, ok := fr.info.TypeOf(e.Args[0]).Underlying().(*types.Slice)
			if !ok || vs[1].T.Sort != "Slice" {
				panic(unsup("copy"))
			}
			d, sr := vs[0].T, vs[1].T
			c := compElem(dt.Elem())
			E := x.comp(s, c)
			ld, ls := tField("sl_len", d), tField("sl_len", sr)
			n := tIte(tLe(ld, ls), ld, ls)
			da := tField("sl_arr", d)
			nc := tCat(tSel(E, da), tField("sl_off", d), tSel(E, tField("sl_arr", sr)), tField("sl_off", sr), n)
			x.branch(s, tEq(da, tInt(0)), func(a *State) { one(a, tInt(0)) }, func(b *State) {
				x.write(b, c, da, nc)
				one(b, n)
			})
		})
	case "delete":
		mt := fr.info.TypeOf(e.Args[0])
		x.evalRest(fr, st, e.Args, nil, func(s *State, vs []Val) {
			kt, _ := mapKV(mt)
			kk := x.convertAssign(s, vs[1], kt)
			md := compMD(mt)
			m := vs[0].T
			do := func(s *State) {
				x.write(s, md, m, tStore(tSel(x.comp(s, md), m), kk.T, tFalse))
				k(s, nil)
			}
			if _, ok := splitLinAlloc(x, m); ok || s.knows(tNot(tEq(m, tInt(0)))) {
				do(s)
				return
			}
			x.branch(s, tEq(m, tInt(0)), func(a *State) { k(a, nil) }, do)
		})
	case "panic":
		x.eval(fr, st, e.Args[0], func(s *State, v Val) {
			x.panicOb(s, "explicit panic is unreachable", e.Pos(), tFalse)
		})
	case "print", "println":
		x.evalRest(fr, st, e.Args, nil, func(s *State, vs []Val) { k(s, nil) })
	default:
		panic(unsup("builtin " + name))
	}
}

func (x *X) appendOne(st *State, sl, v *Term, el types.Type) *Term {
	c := compElem(el)
	E := x.comp(st, c)
	arr, off, ln, cp := tField("sl_arr", sl), tField("sl_off", sl), tField("sl_len", sl), tField("sl_cap", sl)
	fits := tLt(ln, cp)
	r := x.newRef(st)
	nc := mkConst(freshName("cap"), "Int")
	st.assume(tLt(ln, nc))
	na := tIte(fits, arr, r)
	no := tIte(fits, off, tInt(0))
	base := tIte(fits, tSel(E, arr), tShift(tSel(E, arr), off))
	x.write(st, c, na, tStore(base, tIdx(no, ln), v))
	return tCtor("mkslice", na, no, tAdd(ln, tInt(1)), tIte(fits, cp, nc))
}

func (x *X) appendSlice(st *State, sl, src *Term, el, sel types.Type) *Term {
	c := compElem(el)
	E := x.comp(st, c)
	SE := x.comp(st, compElem(sel))
	arr, off, ln, cp := tField("sl_arr", sl), tField("sl_off", sl), tField("sl_len", sl), tField("sl_cap", sl)
	n := tField("sl_len", src)
	tot := tAdd(ln, n)
	fits := tLe(tot, cp)
	r := x.newRef(st)
	nc := mkConst(freshName("cap"), "Int")
	st.assume(tLe(tot, nc))
	// appending an empty slice to a nil slice yields nil
	na := tIte(fits, arr, r)
	no := tIte(fits, off, tInt(0))
	base := tIte(fits, tSel(E, arr), tShift(tSel(E, arr), off))
	x.write(st, c, na, tCat(base, tAdd(no, ln), tSel(SE, tField("sl_arr", src)), tField("sl_off", src), n))
	return tCtor("mkslice", na, no, tot, tIte(fits, cp, nc))
}

// logHints instantiates ln/exp laws at additions and at exp arguments.
func (x *X) logHints(st *State, a, b *Term, op string) {
	if x.dry > 0 {
		return
	}
	h := func(l, o *Term) {
		// l = flog(y) (or fin(rln y)): ln(y)+o = ln(y*exp(o)) for y > 0
		var y *Term
		if l.Op == "flog" || l.Op == "flog1p" {
			y = tField("rv", l.Args[0])
			if l.Op == "flog1p" {
				y = tAdd(tReal(big.NewRat(1, 1)), y)
			}
			st.assume(tImp(tAnd(tIs("fin", l.Args[0]), tIs("fin", o), tLt(tReal(new(big.Rat)), y)), tEq(tAdd(tApp("rln", y), tField("rv", o)), tApp("rln", tMul(y, tApp("rexp", tField("rv", o)))))))
		}
	}
	h(a, b)
	h(b, a)
}

func (x *X) expHints(st *State, a *Term) {
	if x.dry > 0 {
		return
	}
	var p, q *Term
	switch a.Op {
	case "fsub", "fadd":
		p, q = tField("rv", a.Args[0]), tField("rv", a.Args[1])
		c := tAnd(tIs("fin", a.Args[0]), tIs("fin", a.Args[1]))
		if a.Op == "fsub" {
			st.assume(tImp(c, tEq(tMul(tApp("rexp", tSub(p, q)), tApp("rexp", q)), tApp("rexp", p))))
		} else {
			st.assume(tImp(c, tEq(tApp("rexp", tAdd(p, q)), tMul(tApp("rexp", p), tApp("rexp", q)))))
		}
	case "fin":
		r := a.Args[0]
		if r.Op == "-" && len(r.Args) == 2 {
			st.assume(tEq(tMul(tApp("rexp", r), tApp("rexp", r.Args[1])), tApp("rexp", r.Args[0])))
		} else if r.Op == "+" && len(r.Args) == 2 {
			st.assume(tEq(tApp("rexp", r), tMul(tApp("rexp", r.Args[0]), tApp("rexp", r.Args[1]))))
		}
	}
}

var noopExt = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "log.Printf": true, "log.Println": true}

func (x *X) external(fr *Frame, st *State, f *types.Func, args []Val, e *ast.CallExpr, k func(*State, []Val)) {
	key := funcKey(f)
	sig := f.Type().(*types.Signature)
	ret := func(t *Term) { k(st, []Val{{T: t, Ty: sig.Results().At(0).Type()}}) }
	x.ext[key] = true
	A := func(i int) *Term { return args[i].T }
	switch key {
	case "math.Exp":
		x.expHints(st, A(0))
		ret(tApp("fexp", A(0)))
		return
	case "math.Log":
		ret(tApp("flog", A(0)))
		return
	case "math.Log1p":
		ret(tApp("flog1p", A(0)))
		return
	case "math.Sqrt":
		ret(tApp("fsqrt", A(0)))
		return
	case "math.Abs":
		ret(tApp("fabs", A(0)))
		return
	case "math.Floor":
		ret(tApp("ffloor", A(0)))
		return
	case "math.Round":
		ret(tApp("fround", A(0)))
		return
	case "floats.Round":
		// round half away from zero to prec decimals
		if v, ok := intVal(A(1)); ok && v.Sign() == 0 {
			ret(tApp("fround", A(0)))
			return
		}
	case "math.Inf":
		ret(tIte(tLe(tInt(0), A(0)), fPinf, fNinf))
		return
	case "math.NaN":
		ret(fNan)
		return
	case "math.IsInf":
		p := tAnd(tLe(tInt(0), A(1)), tEq(A(0), fPinf))
		n := tAnd(tLe(A(1), tInt(0)), tEq(A(0), fNinf))
		ret(tOr(p, n))
		return
	case "math.IsNaN":
		ret(tEq(A(0), fNan))
		return
	case "math.Max", "math.Min":
		c := tF2("fle", A(1), A(0))
		if key == "math.Min" {
			c = tF2("fle", A(0), A(1))
		}
		ret(tIte(tOr(tEq(A(0), fNan), tEq(A(1), fNan)), fNan, tIte(c, A(0), A(1))))
		return
	case "math.Pow":
		// squares and a few constant exponents are exact
		if isFin(A(1)) {
			if v, ok := realVal(A(1).Args[0]); ok && v.IsInt() && v.Num().Int64() == 2 {
				ret(tF2("fmul", A(0), A(0)))
				return
			}
		}
		c := mkConst(freshName("pow"), "F")
		ret(c)
		return
	case "errors.New", "fmt.Errorf":
		r := mkConst(freshName("err"), "Int")
		x.newAlloc(st)
		st.assume(tAnd(tLt(tInt(0), r), tLt(r, st.alloc)))
		ret(r)
		return
	}
	if noopExt[key] {
		var rs []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			v := Val{T: mkConst(freshName("ext"), sortOf(t)), Ty: t}
			st.assume(x.wfVal(v.T, t, st.alloc, true))
			rs = append(rs, v)
		}
		k(st, rs)
		return
	}
	panic(unsup("external function " + key))
}

// intBits is the width of an integer type (64 for int, uint and everything unknown).
func intBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}
