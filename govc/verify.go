package main

// Verification of one function against its contract, and of lemmas.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func newX(p *Program, sp *Specs) *X {
	x := &X{prog: p, specs: sp, vcSeen: map[string]bool{}, base0: map[string]*Term{}, allocIdx: map[*Term]int{}, implDone: map[string]bool{}, hidden: map[string]bool{}, loopOrd: map[string]int{}, disc: map[string]*discInfo{}, versions: map[string][]*version{}, deps: map[string]bool{}, trusted: map[string]string{}, ext: map[string]bool{}, assumes: map[string]bool{}, freshC: map[string]bool{}, inlined: map[string]bool{}, boxCache: map[ast.Node]map[*types.Var]bool{}, thDone: map[string]bool{}, verById: map[*Term]*version{}, lemUsed: map[string]bool{}}
	x.alloc0 = mkConst("alloc0", "Int")
	x.allocIdx[x.alloc0] = 1
	for _, t := range sp.Types {
		for _, h := range t.Hidden {
			x.hidden[h] = true
		}
	}
	return x
}

func (x *X) initState(fi *FuncInfo) *State {
	st := &State{env: map[*types.Var]Val{}, heap: map[string]*Term{}, gv: map[string]Val{}, loopk: map[string]Val{}, alloc: x.alloc0}
	st.assume(tLt(tInt(0), x.alloc0))
	add := func(v *types.Var, t types.Type, name string) {
		if sig, ok := t.Underlying().(*types.Signature); ok {
			c := mkConst("p."+name, "Int")
			x.params = append(x.params, Val{T: c, Ty: t, Fn: &FnVal{Unk: name, Sig: sig}})
			x.paramObj = append(x.paramObj, v)
			return
		}
		c := mkConst("p."+name, sortOf(t))
		st.assume(x.wfVal(c, t, st.alloc, true))
		x.params = append(x.params, Val{T: c, Ty: t})
		x.paramObj = append(x.paramObj, v)
	}
	x.params, x.paramObj = nil, nil
	if fi.Sig.Recv() != nil {
		rv := recvVar(fi)
		t := fi.Sig.Recv().Type()
		n := "recv"
		if rv != nil {
			n = rv.Name()
		}
		add(rv, t, n)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			st.assume(tNot(tEq(x.params[0].T, tInt(0))))
			st.assume(x.promoted(fi.Obj, x.params[0].T))
		}
	}
	for i := 0; i < fi.Sig.Params().Len(); i++ {
		p := fi.Sig.Params().At(i)
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		add(p, p.Type(), n)
	}
	return st
}

// assignLoopOrds numbers the loops of fi (and of the functions it inlines) in pre-order.
func (x *X) assignLoopOrds(fi *FuncInfo) {
	n := 0
	clos := map[types.Object]bool{} // variables and parameters that hold a function literal
	isClos := func(e ast.Expr, info *types.Info) bool {
		switch e := ast.Unparen(e).(type) {
		case *ast.FuncLit:
			return true
		case *ast.Ident:
			return clos[info.Uses[e]]
		}
		return false
	}
	var walk func(node ast.Node, info *types.Info, path string, stack []*FuncInfo)
	walk = func(node ast.Node, info *types.Info, path string, stack []*FuncInfo) {
		ast.Inspect(node, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.ForStmt:
				n++
				x.loopOrd[path+"#"+fmt.Sprint(int(m.Pos()))] = n
			case *ast.RangeStmt:
				n++
				x.loopOrd[path+"#"+fmt.Sprint(int(m.Pos()))] = n
			case *ast.AssignStmt:
				for i, r := range m.Rhs {
					if id, ok := m.Lhs[min(i, len(m.Lhs)-1)].(*ast.Ident); ok && isClos(r, info) {
						if o := info.Defs[id]; o != nil {
							clos[o] = true
						}
					}
				}
			case *ast.CallExpr:
				var f *types.Func
				switch fn := ast.Unparen(m.Fun).(type) {
				case *ast.Ident:
					f, _ = info.Uses[fn].(*types.Func)
				case *ast.SelectorExpr:
					f, _ = info.Uses[fn.Sel].(*types.Func)
				}
				if f == nil {
					return true
				}
				con, ci := x.contractFor(f)
				lit := false
				for i, a := range m.Args {
					if isClos(a, info) {
						lit = true
						ps := f.Type().(*types.Signature).Params()
						if ci != nil {
							ps = ci.Sig.Params()
						}
						if i < ps.Len() {
							clos[ps.At(i)] = true
						}
					}
				}
				if ci == nil || ci.Decl.Body == nil || (con != nil && !(x.repOK && con.RepOK) && !lit) {
					return true
				}
				for _, s := range stack {
					if s == ci {
						return true
					}
				}
				// arguments first
				for _, a := range m.Args {
					walk(a, info, path, stack)
				}
				if se, ok := ast.Unparen(m.Fun).(*ast.SelectorExpr); ok {
					walk(se.X, info, path, stack)
				}
				walk(ci.Decl.Body, ci.Pkg.Info, path+fmt.Sprintf("/%d", m.Pos()), append(append([]*FuncInfo{}, stack...), ci))
				return false
			}
			return true
		})
	}
	walk(fi.Decl.Body, fi.Pkg.Info, "", []*FuncInfo{fi})
}

type Result struct {
	Key      string
	VCs      []*VC
	Err      string
	Trusted  map[string]string
	Deps     map[string]bool
	Ext      map[string]bool
	Assumes  map[string]bool
	Inlined  map[string]bool
	Theories []string
	LemUsed  map[string]bool
	Smoke    []*VC
	Pos      string
}

func (x *X) allAxioms(upto *Lemma) []Axiom {
	var out []Axiom
	done := map[string]bool{}
	for i := 0; i < len(x.theory); i++ {
		n := x.theory[i]
		if done[n] {
			continue
		}
		done[n] = true
		if upto == nil && x.con != nil && x.con.Without[n] {
			continue
		}
		out = append(out, x.theoryAxioms(n, upto)...)
	}
	out = append(out, builtinAx...)
	out = append(out, x.wf...)
	out = append(out, x.verAx...)
	return out
}

func verifyFunc(p *Program, sp *Specs, key string) (res *Result) {
	res = &Result{Key: key}
	con := sp.Contracts[key]
	if con == nil {
		res.Err = "no contract for " + key
		return
	}
	fi := p.Funcs[key]
	if fi == nil || fi.Decl.Body == nil {
		res.Err = "function " + key + " is not in the source tree"
		return
	}
	x := newX(p, sp)
	x.fi = fi
	x.con = con
	x.name = key
	x.repOK = con.RepOK
	x.frameCon = con
	res.Pos = x.posStr(fi.Decl.Pos())
	defer func() {
		res.Trusted, res.Deps, res.Ext, res.Assumes, res.Inlined, res.Theories, res.LemUsed = x.trusted, x.deps, x.ext, x.assumes, x.inlined, x.theory, x.lemUsed
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				res.Err = "unsupported: " + string(r)
			case specErr:
				res.Err = "contract does not fit the code: " + string(r)
			default:
				panic(r)
			}
		}
	}()
	np := fi.Sig.Params().Len()
	if fi.Sig.Recv() != nil {
		np++
	}
	if np != len(con.Params) {
		panic(specErr(fmt.Sprintf("signature of %s changed: %d parameters, the contract names %d", key, np, len(con.Params))))
	}
	if len(con.Results) > 0 && len(con.Results) != fi.Sig.Results().Len() {
		panic(specErr(fmt.Sprintf("signature of %s changed: %d results, the contract names %d", key, fi.Sig.Results().Len(), len(con.Results))))
	}
	for _, u := range con.Uses {
		x.needTheory(u)
	}
	x.assignLoopOrds(fi)
	st := x.initState(fi)
	for _, g := range con.GVars {
		srt, ty := x.specSort(g.Type)
		st.gv[g.Name] = Val{T: mkConst(freshName("gv."+g.Name), srt), Ty: ty}
	}
	for i, p := range x.params {
		if p.Fn != nil && p.Fn.Unk != "" && i < len(con.Params) && p.Fn.Sig.Params().Len() > 0 && sortOf(p.Fn.Sig.Params().At(0).Type()) == "Int" {
			p.Fn.Tag = con.Params[i]
			z := tConstArr("(Array Int Int)", tInt(-1))
			st.gv["calls_"+p.Fn.Tag] = Val{T: tCtor("mkview", z, tInt(0), tInt(0), z)}
			if p.Fn.Sig.Results().Len() == 1 {
				t := p.Fn.Sig.Results().At(0).Type()
				st.gv["res_"+p.Fn.Tag] = Val{T: mkConst(freshName("res"), arrSort("Int", sortOf(t))), Tup: []Val{{Ty: t}}}
			}
		}
	}
	x.assumeGlobals(st)
	binds := x.bindParams(con, x.params)
	if con.RepOK {
		x.assumeRep(st, x.params[0])
	}
	for _, c := range con.Requires {
		sc := &SpecCtx{x: x, st: st, old: st, binds: binds, assume: true}
		st.assume(sc.eval(c.E).T)
	}
	x.entry = st.clone()
	entryFacts := st.factList()
	if !con.NoSmoke {
		res.Smoke = append(res.Smoke, &VC{Func: key, Label: "preconditions are satisfiable", Kind: "smoke-entry", Facts: entryFacts, Goal: tFalse, Smoke: true})
	}
	exits := 0
	x.inline(nil, st, fi.Decl.Body, fi.Pkg, fi.Sig, fi, nil, nil, x.params, token.NoPos, func(s *State, vals []Val) {
		exits++
		x.atExit(con, s, vals, fi.Decl.End())
		if !con.NoSmoke && len(res.Smoke) < 12 {
			res.Smoke = append(res.Smoke, &VC{Func: key, Label: fmt.Sprintf("exit path %d is reachable", exits), Kind: "smoke-exit", Facts: s.factList(), Goal: tFalse, Smoke: true})
		}
	})
	for _, s := range x.smoke {
		s.Func = key
		res.Smoke = append(res.Smoke, s)
	}
	x.finish(res)
	return
}

func (x *X) finish(res *Result) {
	for _, vc := range append(append([]*VC{}, x.vcs...), res.Smoke...) {
		fs := append(append([]*Term{}, vc.Facts...), vc.Goal)
		un := x.unfoldRec(fs, 2)
		vc.Facts = append(vc.Facts, un...)
	}
	ax := x.allAxioms(nil)
	for _, vc := range append(append([]*VC{}, x.vcs...), res.Smoke...) {
		vc.Ax = ax
		if vc.TO == 0 && x.con != nil {
			vc.TO = x.con.Timeout
		}
	}
	res.VCs = x.vcs
}

// ghostSet performs a ghost assignment.
func (x *X) ghostSet(s *State, g GhostSet, sc *SpecCtx) {
	if g.LHS.Op == "id" {
		s.gv[g.LHS.Name] = sc.eval(g.RHS)
		return
	}
	if g.LHS.Op == "call" && g.LHS.Name == "all" {
		// a whole ghost heap component
		c, ok := sc.ghostField(g.LHS.Args[0].Name)
		if !ok {
			sperr("ghost assignment to %s", g.LHS.Args[0].Name)
		}
		v := sc.eval(g.RHS).T
		s.heap[c] = v
		s.addLog(WEnt{Comp: c, Havoc: true, Wild: true})
		return
	}
	var c string
	var r *Term
	if g.LHS.Op == "index" && g.LHS.Args[0].Op == "id" {
		// ghost heap component written at an index: owner[r] = v
		var ok bool
		c, ok = sc.ghostField(g.LHS.Args[0].Name)
		if !ok {
			sperr("ghost assignment to %s", g.LHS.Args[0].Name)
		}
		r = sc.eval(g.LHS.Args[1]).T
	} else {
		c, r = sc.fieldLoc(g.LHS)
	}
	if !strings.HasPrefix(c, "gh.") {
		sperr("ghost assignment to a program variable")
	}
	v := sc.eval(g.RHS).T
	s.heap[c] = tStore(x.comp(s, c), r, v)
	s.addLog(WEnt{Comp: c, Target: r})
}

func (x *X) atExit(con *Contract, s *State, vals []Val, pos token.Pos) {
	binds := x.bindParams(con, x.params)
	for i, r := range con.Results {
		if i < len(vals) {
			binds[r] = vals[i]
		}
	}
	mk := func() *SpecCtx { return &SpecCtx{x: x, st: s, old: x.entry, binds: binds} }
	// ghost assignments
	for _, g := range con.Ghost {
		if x.dry > 0 {
			break
		}
		x.ghostSet(s, g, mk())
	}
	for _, a := range con.Applies {
		x.applyLemma(s, mk(), a, pos)
	}
	for _, a := range con.Asserts {
		x.oblige(s, "assertion: "+clauseName(a), "assert", pos, mk().eval(a.E).T)
	}
	for i, c := range con.Ensures {
		x.emit(s, fmt.Sprintf("postcondition %d: %s", i+1, clauseName(c)), "post", pos, mk().eval(c.E).T)
	}
	if con.RepOK {
		x.checkRep(s, pos)
	}
	x.frameCheck(con, s, pos)
}

func (x *X) frameCheck(con *Contract, s *State, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	binds := x.bindParams(con, x.params)
	allowed := map[string][]*Term{}
	all := map[string]bool{}
	for _, m := range con.Modifies {
		for _, l := range x.modTargets(m, x.entry, binds) {
			if l.all {
				all[l.comp] = true
			} else {
				allowed[l.comp] = append(allowed[l.comp], l.ref)
			}
		}
	}
	done := map[string]bool{}
	var ents []*WEnt
	for l := s.log; l != nil; l = l.Prev {
		ents = append(ents, l)
	}
	for i := len(ents) - 1; i >= 0; i-- {
		l := ents[i]
		c := l.Comp
		if all[c] || (con.RepOK && x.hidden[c]) {
			continue
		}
		ci := comps[c]
		if strings.HasPrefix(c, "gh.") && con.RepOK && ci != nil && !x.visibleGhost(c) {
			continue
		}
		if ci.Kind == "glob" {
			if len(allowed[c]) > 0 {
				continue
			}
			if !done[c] {
				done[c] = true
				x.emit(s, "frame: package variable "+c+" is not modified", "frame", pos, tEq(x.comp(s, c), x.comp(x.entry, c)))
			}
			continue
		}
		if l.Wild {
			if done["wild"+c] {
				continue
			}
			done["wild"+c] = true
			r := mkBV(freshName("?r"), "Int")
			hyp := []*Term{tLt(r, x.alloc0), tLt(tInt(0), r)}
			for _, a := range allowed[c] {
				hyp = append(hyp, tNot(tEq(r, a)))
			}
			g := mkQuant("forall", []QV{{r.Op, "Int"}}, nil, tImp(tAnd(hyp...), tEq(tSel(x.comp(s, c), r), tSel(x.comp(x.entry, c), r))))
			x.emit(s, "frame: "+c+" changes only where the contract allows", "frame", pos, g)
			continue
		}
		var ts []*Term
		if l.Havoc {
			ts = l.Inv
		} else {
			ts = []*Term{l.Target}
		}
		for _, t := range ts {
			if x.isFresh(t, x.alloc0) {
				continue
			}
			k := fmt.Sprintf("%s|%d", c, t.id)
			if done[k] {
				continue
			}
			done[k] = true
			var ds []*Term
			ok := false
			for _, a := range allowed[c] {
				if a == t {
					ok = true
				}
				ds = append(ds, tEq(t, a))
			}
			if ok {
				continue
			}
			ds = append(ds, tLe(x.alloc0, t))
			if ci.Kind == "elem" {
				ds = append(ds, tEq(t, tInt(0)))
			}
			// a write that leaves the location unchanged is fine too
			ds = append(ds, tEq(tSel(x.comp(s, c), t), tSel(x.comp(x.entry, c), t)))
			x.emit(s, "frame: write to "+c+" is within the modifies clause", "frame", pos, tOr(ds...))
		}
	}
}

// loopFrame: what the function's frame condition says about component c in state s (nil: nothing)
func (x *X) loopFrame(s *State, c string) *Term {
	con := x.frameCon
	ci := comps[c]
	if con == nil || ci == nil || ci.Kind == "glob" || (con.RepOK && x.hidden[c]) || (strings.HasPrefix(c, "gh.") && con.RepOK && !x.visibleGhost(c)) {
		return nil
	}
	binds := x.bindParams(con, x.params)
	r := mkBV("?r$frame", "Int")
	hyp := []*Term{tLt(r, x.alloc0), tLt(tInt(0), r)}
	for _, m := range con.Modifies {
		for _, l := range x.modTargets(m, x.entry, binds) {
			if l.comp != c {
				continue
			}
			if l.all {
				return nil
			}
			hyp = append(hyp, tNot(tEq(r, l.ref)))
		}
	}
	e := tSel(x.comp(s, c), r)
	return mkQuant("forall", []QV{{r.Op, "Int"}}, [][]*Term{{e}}, tImp(tAnd(hyp...), tEq(e, tSel(x.comp(x.entry, c), r))))
}

func (x *X) visibleGhost(c string) bool { return c != "gh.owner" }

// ---------- representation invariants of encapsulated types ----------

func (x *X) repSpec() *TypeSpec {
	t := x.fi.Sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return x.specs.Types[typeKey(t)]
}

func (x *X) repAt(st *State, v Val, ts *TypeSpec) *Term {
	sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{"self": v}}
	return sc.eval(ts.Rep).T
}

func (x *X) assumeRep(st *State, self Val) {
	ts := x.repSpec()
	if ts == nil || ts.Rep == nil {
		sperr("repmethod without a representation invariant")
	}
	st.assume(x.repAt(st, self, ts))
	// arbitrary other objects of the encapsulated types satisfy their invariants as well
	keys := []string{}
	for k, t := range x.specs.Types {
		if t.Rep != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := x.specs.Types[k]
		gt := types.NewPointer(x.prog.lookupType(k))
		o := Val{T: mkConst("other."+sanitize(k), "Int"), Ty: gt}
		st.assume(tAnd(tLt(tInt(0), o.T), tLt(o.T, x.alloc0), tNot(tEq(o.T, self.T))))
		st.assume(x.repAt(st, o, t))
		x.repOthers = append(x.repOthers, repOther{o, t})
	}
}

type repOther struct {
	v  Val
	ts *TypeSpec
}

func (x *X) checkRep(s *State, pos token.Pos) {
	x.emit(s, "representation invariant of the receiver is re-established", "rep", pos, x.repAt(s, x.params[0], x.repSpec()))
	for _, o := range x.repOthers {
		x.emit(s, "representation invariant of every other "+o.ts.Key+" is preserved", "rep", pos, x.repAt(s, o.v, o.ts))
	}
}

// zeroRep: the zero value of an encapsulated type satisfies its invariant.
func verifyZeroRep(p *Program, sp *Specs, key string) (res *Result) {
	res = &Result{Key: "zero-value of " + key}
	ts := sp.Types[key]
	x := newX(p, sp)
	x.repOK = true
	x.name = res.Key
	defer func() {
		res.Trusted, res.Deps, res.Ext, res.Assumes, res.Inlined = x.trusted, x.deps, x.ext, x.assumes, x.inlined
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				res.Err = "unsupported: " + string(r)
			case specErr:
				res.Err = "contract does not fit the code: " + string(r)
			default:
				panic(r)
			}
		}
	}()
	t := p.lookupType(key)
	if t == nil {
		res.Err = "type " + key + " not found"
		return
	}
	st := &State{env: map[*types.Var]Val{}, heap: map[string]*Term{}, gv: map[string]Val{}, loopk: map[string]Val{}, alloc: x.alloc0}
	st.assume(tLt(tInt(0), x.alloc0))
	x.entry = st.clone()
	r := x.newRef(st)
	x.initRef(st, r, t, zeroOf(t))
	x.emit(st, "the zero value of "+key+" satisfies the representation invariant", "rep", token.NoPos, x.repAt(st, Val{T: r, Ty: types.NewPointer(t)}, ts))
	x.finish(res)
	// encapsulation: hidden fields are used only by the methods under contract
	hid := map[string]bool{}
	for _, h := range ts.Hidden {
		hid[h] = true
	}
	for _, fi := range p.ByObj {
		if fi.Decl.Body == nil {
			continue
		}
		if c := sp.Contracts[fi.Key]; c != nil && c.RepOK {
			continue
		}
		ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				if sel := fi.Pkg.Info.Selections[se]; sel != nil && sel.Kind() == types.FieldVal {
					f := sel.Obj().(*types.Var)
					rt := sel.Recv()
					if pt, ok := rt.(*types.Pointer); ok {
						rt = pt.Elem()
					}
					if hid["f."+typeKey(rt)+"."+f.Name()] && !x.onlyCalledByRep(fi) {
						res.Err = "encapsulated field " + typeKey(rt) + "." + f.Name() + " is used outside the methods under contract, in " + fi.Key
					}
				}
			}
			return true
		})
	}
	return
}

// onlyCalledByRep: an unexported helper that is only called from methods under a representation contract
// (it is inlined there).
func (x *X) onlyCalledByRep(fi *FuncInfo) bool {
	if fi.Obj.Exported() {
		return false
	}
	ok := true
	for _, g := range x.prog.ByObj {
		if g.Decl.Body == nil || g == fi {
			continue
		}
		if c := x.specs.Contracts[g.Key]; c != nil && c.RepOK {
			continue
		}
		ast.Inspect(g.Decl.Body, func(n ast.Node) bool {
			if id, isI := n.(*ast.Ident); isI && g.Pkg.Info.Uses[id] == fi.Obj {
				ok = false
			}
			return true
		})
	}
	return ok
}

// ---------- package variable invariants ----------

func (x *X) assumeGlobals(st *State) {
	for _, g := range x.specs.Globals {
		if p := x.prog.ByPkg[g.Pkg]; p == nil {
			continue
		}
		sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}, assume: true}
		st.assume(sc.eval(g.E).T)
	}
}

// verifyGlobals: every package variable constrained by a global clause is never assigned and its
// initialiser establishes the clause.
func verifyGlobals(p *Program, sp *Specs) (res *Result) {
	res = &Result{Key: "package variables"}
	x := newX(p, sp)
	x.name = res.Key
	defer func() {
		res.Trusted, res.Deps, res.Ext, res.Assumes, res.Inlined = x.trusted, x.deps, x.ext, x.assumes, x.inlined
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				res.Err = "unsupported: " + string(r)
			case specErr:
				res.Err = "contract does not fit the code: " + string(r)
			default:
				panic(r)
			}
		}
	}()
	st := &State{env: map[*types.Var]Val{}, heap: map[string]*Term{}, gv: map[string]Val{}, loopk: map[string]Val{}, alloc: x.alloc0}
	x.entry = st.clone()
	initDone := map[string]bool{}
	for _, g := range sp.Globals {
		sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
		names := map[string]bool{}
		var walk func(e *SExpr)
		walk = func(e *SExpr) {
			if e.Op == "sel" && e.Args[0].Op == "id" {
				names[e.Args[0].Name+"."+e.Name] = true
			}
			for _, a := range e.Args {
				walk(a)
			}
		}
		walk(g.E)
		for n := range names {
			i := strings.Index(n, ".")
			pk := p.ByPkg[n[:i]]
			if pk == nil {
				continue
			}
			v, ok := pk.Types.Scope().Lookup(n[i+1:]).(*types.Var)
			if !ok {
				continue
			}
			for _, q := range p.Pkgs {
				for _, f := range q.Files {
					for _, dl := range f.Decls {
						inInit := false
						if fd, ok := dl.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && q == pk {
							inInit = true
						}
						ast.Inspect(dl, func(nd ast.Node) bool {
							chk := func(e ast.Expr) bool {
								e = ast.Unparen(e)
								var id *ast.Ident
								switch e := e.(type) {
								case *ast.Ident:
									id = e
								case *ast.SelectorExpr:
									id = e.Sel
								}
								return id != nil && q.Info.Uses[id] == v
							}
							bad := func() { res.Err = "package variable " + n + " is assigned at " + x.posStr(nd.Pos()) }
							switch s := nd.(type) {
							case *ast.AssignStmt:
								for li, l := range s.Lhs {
									if chk(l) {
										if inInit && len(s.Lhs) == len(s.Rhs) && s.Tok == token.ASSIGN && !initDone[n] {
											initDone[n] = true
											fr := &Frame{pkg: pk, info: pk.Info, boxed: map[*types.Var]bool{}}
											x.eval(fr, st, s.Rhs[li], func(_ *State, val Val) {
												st.heap[compGlob(v)] = x.convertAssign(st, val, v.Type()).T
											})
										} else {
											bad()
										}
									}
								}
							case *ast.IncDecStmt:
								if chk(s.X) {
									bad()
								}
							case *ast.UnaryExpr:
								if s.Op == token.AND && chk(s.X) {
									bad()
								}
							}
							return true
						})
					}
				}
			}
			for _, f := range pk.Files {
				for _, d := range f.Decls {
					gd, ok := d.(*ast.GenDecl)
					if !ok || gd.Tok != token.VAR {
						continue
					}
					for _, s := range gd.Specs {
						vs := s.(*ast.ValueSpec)
						for j, nm := range vs.Names {
							if pk.Info.Defs[nm] == v && j < len(vs.Values) && !initDone[n] {
								fr := &Frame{pkg: pk, info: pk.Info, boxed: map[*types.Var]bool{}}
								x.eval(fr, st, vs.Values[j], func(_ *State, val Val) {
									st.heap[compGlob(v)] = x.convertAssign(st, val, v.Type()).T
								})
							}
						}
					}
				}
			}
		}
		x.emit(st, "global invariant: "+g.Src, "global", token.NoPos, sc.eval(g.E).T)
	}
	x.finish(res)
	return
}

// ---------- lemmas ----------

func verifyLemma(p *Program, sp *Specs, name string) (res *Result) {
	res = &Result{Key: "lemma " + name}
	l := sp.lemma(name)
	if l == nil {
		res.Err = "no lemma " + name
		return
	}
	x := newX(p, sp)
	x.name = res.Key
	defer func() {
		res.Trusted, res.Deps, res.Ext, res.Assumes, res.Inlined, res.Theories = x.trusted, x.deps, x.ext, x.assumes, x.inlined, x.theory
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsup:
				res.Err = "unsupported: " + string(r)
			case specErr:
				res.Err = "lemma is ill-formed: " + string(r)
			default:
				panic(r)
			}
		}
	}()
	x.needTheory(l.Theory)
	for _, u := range l.Uses {
		if sp.Theories[u] != nil {
			x.needTheory(u)
		}
	}
	st := &State{env: map[*types.Var]Val{}, heap: map[string]*Term{}, gv: map[string]Val{}, loopk: map[string]Val{}, alloc: x.alloc0}
	sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
	x.curLemma = l
	for _, v := range l.Params {
		srt, ty := x.specSort(v.Type)
		sc.binds[v.Name] = Val{T: mkConst(freshName("l."+v.Name), srt), Ty: ty}
	}
	for _, r := range l.Req {
		st.assume(sc.eval(r.E).T)
	}
	if l.Induct != "" {
		n := sc.binds[l.Induct]
		// induction hypothesis: the lemma for n-1 and arbitrary other parameters
		ih := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
		ihq := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{}}
		var qs []QV
		for _, v := range l.Params {
			srt, ty := x.specSort(v.Type)
			if v.Name == l.Induct {
				ih.binds[v.Name] = Val{T: tSub(n.T, tInt(1)), Ty: ty}
				ihq.binds[v.Name] = Val{T: tSub(n.T, tInt(1)), Ty: ty}
				continue
			}
			ih.binds[v.Name] = sc.binds[v.Name]
			b := mkBV(freshName("?"+v.Name), srt)
			qs = append(qs, QV{b.Op, srt})
			ihq.binds[v.Name] = Val{T: b, Ty: ty}
		}
		var req, ens []*Term
		for _, r := range l.Req {
			req = append(req, ih.eval(r.E).T)
		}
		for _, r := range l.Ens {
			ens = append(ens, ih.eval(r.E).T)
		}
		st.assume(tImp(tAnd(append([]*Term{tLt(tInt(0), n.T)}, req...)...), tAnd(ens...)))
	}
	for _, u := range l.Uses {
		if sp.Theories[u] != nil {
			continue
		}
		// explicit instances: uses lem(args) are written as apply clauses
	}
	for _, a := range l.Applies {
		x.applyLemma(st, sc, a, token.NoPos)
	}
	for _, r := range l.Ens {
		x.emit(st, "lemma "+name+": "+clauseName(r), "lemma", token.NoPos, sc.eval(r.E).T)
	}
	res.LemUsed = x.lemUsed
	for _, vc := range x.vcs {
		fs := append(append([]*Term{}, vc.Facts...), vc.Goal)
		vc.Facts = append(vc.Facts, x.unfoldRec(fs, 2)...)
	}
	ax := x.allAxioms(l)
	for _, vc := range x.vcs {
		vc.Ax = ax
	}
	res.VCs = x.vcs
	return
}

// ---------- interface contracts ----------

// linkInterfaces copies interface-method contracts to the implementing methods.
func linkInterfaces(p *Program, sp *Specs) error {
	var keys []string
	for k := range sp.Contracts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		con := sp.Contracts[k]
		parts := strings.Split(k, ".")
		if len(parts) != 3 {
			continue
		}
		t := p.lookupType(parts[0] + "." + parts[1])
		if t == nil {
			continue
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		_ = it
		con.Iface = true
		seen := map[string]bool{}
		for _, im := range p.implementers(t) {
			obj, _, _ := types.LookupFieldOrMethod(im, true, namedPkg(im), parts[2])
			m, ok := obj.(*types.Func)
			if !ok {
				continue
			}
			mk := funcKey(m)
			if seen[mk] {
				continue
			}
			seen[mk] = true
			con.Impls = append(con.Impls, mk)
			c2 := sp.Contracts[mk]
			if c2 == nil {
				c2 = &Contract{Key: mk, Pkg: con.Pkg, Loops: map[int]*LoopSpec{}, File: con.File, NoPanic: con.NoPanic, Params: con.Params, Results: con.Results, Like: k, Synthetic: true, Trusted: con.Trusted}
				sp.Contracts[mk] = c2
			}
			if c2.NoLike != "" {
				continue
			}
			if c2.Like == "" {
				c2.Like = k
			}
		}
	}
	keys = keys[:0]
	for k := range sp.Contracts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		con := sp.Contracts[k]
		if con.Like == "" || con.linked {
			continue
		}
		con.linked = true
		base := sp.Contracts[con.Like]
		if base == nil {
			return fmt.Errorf("%s: like unknown contract %s", k, con.Like)
		}
		if len(base.Params) != len(con.Params) {
			return fmt.Errorf("%s: like %s: parameter lists differ", k, con.Like)
		}
		m := map[string]string{}
		for i := range base.Params {
			m[base.Params[i]] = con.Params[i]
		}
		for i := range base.Results {
			if i < len(con.Results) {
				m[base.Results[i]] = con.Results[i]
			}
		}
		if len(con.Results) == 0 {
			con.Results = base.Results
		}
		cp := func(cs []Clause) []Clause {
			var out []Clause
			for _, c := range cs {
				out = append(out, Clause{c.Label, renameS(c.E, m), c.Src, false})
			}
			return out
		}
		con.Requires = append(cp(base.Requires), con.Requires...)
		con.Ensures = append(cp(base.Ensures), con.Ensures...)
		for _, e := range base.Modifies {
			con.Modifies = append(con.Modifies, renameS(e, m))
		}
		if con.Dec == nil && base.Dec != nil {
			con.Dec = renameS(base.Dec, m)
		}
		con.Uses = append(con.Uses, base.Uses...)
	}
	return nil
}

func renameS(e *SExpr, m map[string]string) *SExpr {
	if e == nil {
		return nil
	}
	c := *e
	if e.Op == "id" {
		if n, ok := m[e.Name]; ok {
			c.Name = n
		}
	}
	bound := false
	for _, v := range e.Vars {
		if _, ok := m[v.Name]; ok {
			bound = true
		}
	}
	if bound {
		m2 := map[string]string{}
		for k, v := range m {
			m2[k] = v
		}
		for _, v := range e.Vars {
			delete(m2, v.Name)
		}
		m = m2
	}
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, renameS(a, m))
	}
	c.Trig = nil
	for _, t := range e.Trig {
		var q []*SExpr
		for _, a := range t {
			q = append(q, renameS(a, m))
		}
		c.Trig = append(c.Trig, q)
	}
	return &c
}

// promoted: the dynamic types for which a method of an embedded type is the one that runs; it is
// assumed of the receiver when the method is verified, and checked where it is called by contract.
func (x *X) promoted(f *types.Func, recv *Term) *Term {
	if f == nil {
		return tTrue
	}
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return tTrue
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return tTrue
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || !x.prog.isEmbedded(n) {
		return tTrue
	}
	var ds []*Term
	for _, pk := range x.prog.Pkgs {
		for _, nm := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if o, _, _ := types.LookupFieldOrMethod(pt, true, f.Pkg(), f.Name()); o == f {
				ds = append(ds, tEq(tTypeof(recv), typeId(pt)))
			}
		}
	}
	return tOr(ds...)
}
