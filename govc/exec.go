package main

// Symbolic executor over the typed Go AST.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type FnVal struct {
	Lit   *ast.FuncLit
	Fr    *Frame
	Fi    *FuncInfo
	Obj   *types.Func
	Recv  *Val
	Unk   string
	Tag   string // contract name of the function parameter: calls are recorded in the ghost variables calls_Tag, res_Tag
	Sig   *types.Signature
	Param *types.Var
}

type Frame struct {
	fi     *FuncInfo
	lit    *ast.FuncLit
	pkg    *Pkg
	info   *types.Info
	parent *Frame
	path   string
	sig    *types.Signature
	ret    func(st *State, vals []Val)
	boxed  map[*types.Var]bool
	pos    token.Pos // current call position, for spec name resolution
	body   *ast.BlockStmt
	depth  int
}

type Ctl struct {
	label  string
	isLoop bool
	brk    func(*State)
	cont   func(*State)
	parent *Ctl
}

type X struct {
	curLemma *Lemma
	prog     *Program
	specs    *Specs
	con      *Contract
	fi       *FuncInfo
	name     string // obligation prefix

	vcs       []*VC
	smoke     []*VC
	vcSeen    map[string]bool
	dry       int
	base0     map[string]*Term
	alloc0    *Term
	allocIdx  map[*Term]int
	wf        []Axiom
	implDone  map[string]bool
	hidden    map[string]bool
	repOK     bool
	entry     *State
	params    []Val // entry values
	paramObj  []*types.Var
	loopOrd   map[string]int
	disc      map[string]*discInfo
	versions  map[string][]*version
	verAx     []Axiom
	deps      map[string]bool
	trusted   map[string]string
	ext       map[string]bool
	assumes   map[string]bool
	stack     []*Frame
	nPaths    int
	exitSeen  int
	freshC    map[string]bool // comps written (for summaries)
	theory    []string
	paths     int
	subst     map[string]string // unresolved local name -> substitute
	exitSt    []*State
	implicit  bool
	inlined   map[string]bool
	frameCon  *Contract
	boxCache  map[ast.Node]map[*types.Var]bool
	ghostIdx  map[string]Val
	curLoop   *loopCtx
	muteBrk   int
	thDone    map[string]bool
	verById   map[*Term]*version
	lemUsed   map[string]bool
	repOthers []repOther
}

func (x *X) emit(st *State, label, kind string, pos token.Pos, goal *Term) {
	if x.dry > 0 || goal == tTrue {
		return
	}
	if goal.Op == "and" && len(goal.Vars) == 0 {
		for _, a := range goal.Args {
			x.emit(st, label, kind, pos, a)
		}
		return
	}
	if st.knows(goal) {
		return
	}
	// push implications' hypotheses into the facts
	facts := st.factList()
	g := goal
	for g.Op == "=>" {
		facts = append(facts, g.Args[0])
		g = g.Args[1]
	}
	if g.Op == "and" && len(g.Vars) == 0 {
		for _, a := range g.Args {
			s2 := *st
			for _, f := range facts[len(st.factList()):] {
				s2.assume(f)
			}
			x.emit(&s2, label, kind, pos, a)
		}
		return
	}
	// skolemise a universally quantified goal
	for g.Op == "forall" {
		m := map[*Term]*Term{}
		for _, v := range g.Vars {
			m[mkBV(v.Name, v.Sort)] = mkConst(freshName("sk_"+strings.TrimLeft(strings.Split(v.Name, "!")[0], "?")), v.Sort)
		}
		g = subst(g.Args[0], m)
		// a bound sk < t+1 is split into sk < t and sk = t
		if g.Op == "=>" {
			if sk, t := stepBound(g.Args[0], m); sk != nil {
				s2 := *st
				for _, f := range facts[len(st.factList()):] {
					s2.assume(f)
				}
				x.emit(&s2, label, kind, pos, tImp(tLt(sk, t), g))
				x.emit(&s2, label, kind, pos, subst(g, map[*Term]*Term{sk: t}))
				return
			}
		}
		for g.Op == "=>" {
			facts = append(facts, g.Args[0])
			g = g.Args[1]
		}
		if g.Op == "and" && len(g.Vars) == 0 {
			s2 := *st
			for _, f := range facts[len(st.factList()):] {
				s2.assume(f)
			}
			for _, a := range g.Args {
				x.emit(&s2, label, kind, pos, a)
			}
			return
		}
	}
	if g == tTrue {
		return
	}
	x.vcs = append(x.vcs, &VC{Func: x.name, Label: label, Kind: kind, Pos: x.posStr(pos), Facts: facts, Goal: g})
}

// stepBound looks for a hypothesis sk < t+1 on one of the skolem constants.
func stepBound(h *Term, m map[*Term]*Term) (*Term, *Term) {
	if h.Op == "and" && len(h.Vars) == 0 {
		for _, a := range h.Args {
			if s, t := stepBound(a, m); s != nil {
				return s, t
			}
		}
		return nil, nil
	}
	if h.Op != "<" {
		return nil, nil
	}
	b, c := splitLin(h.Args[1])
	if b == nil || c.Cmp(big.NewInt(1)) != 0 {
		return nil, nil
	}
	for _, sk := range m {
		if h.Args[0] == sk {
			return sk, b
		}
	}
	return nil, nil
}

// check an obligation then assume it
func (x *X) oblige(st *State, label, kind string, pos token.Pos, goal *Term) {
	x.emit(st, label, kind, pos, goal)
	st.assume(goal)
}

func (x *X) panicOb(st *State, what string, pos token.Pos, goal *Term) {
	if x.con != nil && !x.con.NoPanic {
		st.assume(goal)
		return
	}
	x.oblige(st, "no panic: "+what, "panic", pos, goal)
}

func (x *X) nonNil(st *State, r *Term, what string, pos token.Pos) {
	if _, ok := splitLinAlloc(x, r); ok {
		return
	}
	x.panicOb(st, "nil dereference of "+what, pos, tNot(tEq(r, tInt(0))))
}

func splitLinAlloc(x *X, r *Term) (*Term, bool) {
	b, _ := splitLin(r)
	if b == nil {
		return nil, false
	}
	_, ok := x.allocIdx[b]
	return b, ok
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

// ---------- frames / inlining ----------

func (x *X) boxedVars(body ast.Node, info *types.Info) map[*types.Var]bool {
	if m, ok := x.boxCache[body]; ok {
		return m
	}
	m := map[*types.Var]bool{}
	var root func(e ast.Expr) *types.Var
	root = func(e ast.Expr) *types.Var {
		switch e := e.(type) {
		case *ast.Ident:
			v, _ := info.ObjectOf(e).(*types.Var)
			return v
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			if s := info.Selections[e]; s != nil {
				if _, ok := info.TypeOf(e.X).Underlying().(*types.Pointer); ok {
					return nil
				}
				return root(e.X)
			}
		case *ast.IndexExpr:
			if _, ok := info.TypeOf(e.X).Underlying().(*types.Array); ok {
				return root(e.X)
			}
		}
		return nil
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if v := root(n.X); v != nil {
					m[v] = true
				}
			}
		case *ast.SelectorExpr:
			if s := info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
				f := s.Obj().(*types.Func)
				if r := f.Type().(*types.Signature).Recv(); r != nil {
					if _, isP := r.Type().Underlying().(*types.Pointer); isP {
						if _, xp := info.TypeOf(n.X).Underlying().(*types.Pointer); !xp {
							if _, xi := info.TypeOf(n.X).Underlying().(*types.Interface); !xi {
								if v := root(n.X); v != nil {
									m[v] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	x.boxCache[body] = m
	return m
}

func (x *X) declare(fr *Frame, st *State, v *types.Var, val Val) {
	if fr.boxed[v] {
		r := x.newRef(st)
		x.initRef(st, r, v.Type(), val.T)
		st.env[v] = Val{T: r, Ty: v.Type(), Loc: true}
		return
	}
	val.Ty = v.Type()
	st.env[v] = val
}

// initRef stores a value of type ty at a new address r.
func (x *X) initRef(st *State, r *Term, ty types.Type, val *Term) {
	if s, ok := ty.Underlying().(*types.Struct); ok {
		x.storeStruct(st, r, ty, s, val, true)
		st.assume(tEq(tTypeof(r), typeId(types.NewPointer(ty))))
		x.initGhost(st, r, ty)
		return
	}
	x.write(st, compCell(ty), r, val)
}

func (x *X) initGhost(st *State, r *Term, ty types.Type) {
	if ts := x.specs.Types[typeKey(ty)]; ts != nil {
		for _, g := range ts.Ghost {
			srt, _ := x.specSort(g.Type)
			c := compGhost(g.Name, srt)
			z := ts.Zero[g.Name]
			if z == nil {
				continue
			}
			sc := &SpecCtx{x: x, st: st, old: st, binds: map[string]Val{"self": {T: r, Ty: types.NewPointer(ty)}}}
			v := sc.eval(z)
			st.heap[c] = tStore(x.comp(st, c), r, v.T)
			st.addLog(WEnt{Comp: c, Target: r})
		}
	}
}

func (x *X) storeStruct(st *State, r *Term, ty types.Type, s *types.Struct, val *Term, fresh bool) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		fv := tField(structFieldSel(ty, i), val)
		if es, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
			x.storeStruct(st, r, f.Type(), es, fv, fresh)
			continue
		}
		cn := compField(ty, f)
		if fresh && x.hidden[cn] {
			c := x.comp(st, cn)
			st.heap[cn] = tStore(c, r, fv)
			st.addLog(WEnt{Comp: cn, Target: r})
			continue
		}
		x.write(st, cn, r, fv)
	}
}

func (x *X) loadStruct(st *State, r *Term, ty types.Type) *Term {
	s := ty.Underlying().(*types.Struct)
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
			args = append(args, x.loadStruct(st, r, f.Type()))
			continue
		}
		args = append(args, tSel(x.comp(st, compField(ty, f)), r))
	}
	if len(args) == 0 {
		args = append(args, tInt(0))
	}
	srt := sortOf(ty)
	return tCtor(datatypes[srt].Ctors[0].Name, args...)
}

func (x *X) loadWf(st *State, v Val) Val {
	if v.T != nil && v.Ty != nil {
		st.assume(x.wfVal(v.T, v.Ty, st.alloc, true))
	}
	return v
}

// varVal reads the current value of a variable (through its box when needed).
func (x *X) varVal(st *State, v *types.Var) Val {
	val, ok := st.env[v]
	if !ok {
		panic(unsup("variable " + v.Name() + " not in scope"))
	}
	if val.Loc {
		return Val{T: x.loadRef(st, val.T, val.Ty), Ty: val.Ty, Addr: val.T}
	}
	return val
}

func (x *X) loadRef(st *State, r *Term, ty types.Type) *Term {
	if _, ok := ty.Underlying().(*types.Struct); ok {
		return x.loadStruct(st, r, ty)
	}
	return tSel(x.comp(st, compCell(ty)), r)
}

// inline executes a function body in a new frame.
func (x *X) inline(fr *Frame, st *State, body *ast.BlockStmt, pkg *Pkg, sig *types.Signature, fi *FuncInfo, lit *ast.FuncLit, lexical *Frame, args []Val, callPos token.Pos, k func(*State, []Val)) {
	depth := 0
	path := ""
	if fr != nil {
		depth = fr.depth + 1
		path = fr.path + fmt.Sprintf("/%d", callPos)
	}
	if depth > 30 {
		panic(unsup("inline depth"))
	}
	if fi != nil {
		for f := fr; f != nil; f = f.parent {
			if f.fi == fi {
				panic(unsup("recursive function without a contract: " + fi.Key))
			}
		}
	}
	nf := &Frame{fi: fi, lit: lit, pkg: pkg, info: pkg.Info, parent: fr, path: path, sig: sig, body: body, depth: depth}
	nf.boxed = x.boxedVars(body, pkg.Info)
	if lexical != nil {
		// closures share the enclosing function's boxed variables
		m := map[*types.Var]bool{}
		for v := range lexical.boxed {
			m[v] = true
		}
		for v := range nf.boxed {
			m[v] = true
		}
		nf.boxed = m
	}
	if fr != nil {
		fr.pos = callPos
	}
	i := 0
	var ps []*types.Var
	if fi != nil && sig.Recv() != nil {
		ps = append(ps, recvVar(fi))
	}
	for j := 0; j < sig.Params().Len(); j++ {
		ps = append(ps, sig.Params().At(j))
	}
	for _, p := range ps {
		if p != nil {
			x.declare(nf, st, p, args[i])
		}
		i++
	}
	for j := 0; j < sig.Results().Len(); j++ {
		r := sig.Results().At(j)
		if r.Name() != "" {
			x.declare(nf, st, r, Val{T: zeroOf(r.Type()), Ty: r.Type()})
		}
	}
	nf.ret = func(s *State, vals []Val) {
		k(s, vals)
	}
	x.execBlock(nf, st, body.List, func(s *State) {
		x.doReturn(nf, s, nil)
	}, nil)
}

func recvVar(fi *FuncInfo) *types.Var {
	// the receiver variable object as used in the body
	if fi.Decl.Recv != nil && len(fi.Decl.Recv.List) > 0 && len(fi.Decl.Recv.List[0].Names) > 0 {
		if v, ok := fi.Pkg.Info.Defs[fi.Decl.Recv.List[0].Names[0]].(*types.Var); ok {
			return v
		}
	}
	return nil
}

func (x *X) doReturn(fr *Frame, st *State, vals []Val) {
	if vals == nil {
		for j := 0; j < fr.sig.Results().Len(); j++ {
			r := fr.sig.Results().At(j)
			if r.Name() == "" {
				panic(unsup("missing return"))
			}
			vals = append(vals, x.varVal(st, r))
		}
	}
	fr.ret(st, vals)
}

// ---------- statements ----------

func (x *X) execBlock(fr *Frame, st *State, list []ast.Stmt, k func(*State), ctl *Ctl) {
	if len(list) == 0 {
		k(st)
		return
	}
	x.exec(fr, st, list[0], func(s *State) { x.execBlock(fr, s, list[1:], k, ctl) }, ctl, "")
}

func (x *X) branch(st *State, c *Term, kt, kf func(*State)) {
	x.paths++
	if x.paths > 60000 {
		panic(unsup("too many paths"))
	}
	nc := tNot(c)
	tOK := c != tFalse && !st.knows(nc)
	fOK := nc != tFalse && !st.knows(c)
	if tOK && fOK {
		s2 := st.clone()
		st.assume(c)
		kt(st)
		s2.assume(nc)
		kf(s2)
		return
	}
	if tOK {
		st.assume(c)
		kt(st)
	} else if fOK {
		st.assume(nc)
		kf(st)
	}
}

func (x *X) exec(fr *Frame, st *State, s ast.Stmt, k func(*State), ctl *Ctl, label string) {
	switch s := s.(type) {
	case nil:
		k(st)
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.execBlock(fr, st, s.List, k, ctl)
	case *ast.LabeledStmt:
		x.exec(fr, st, s.Stmt, k, ctl, s.Label.Name)
	case *ast.ExprStmt:
		x.evalMulti(fr, st, s.X, func(s2 *State, _ []Val) { k(s2) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		x.declSpecs(fr, st, gd.Specs, k)
	case *ast.AssignStmt:
		x.assignStmt(fr, st, s, k)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		x.evalLV(fr, st, s.X, func(s2 *State, lv *LV) {
			v := x.load(s2, lv, s.Pos())
			one := Val{T: tInt(1), Ty: lv.ty}
			if sortOf(lv.ty) == "F" {
				one.T = fFin(tInt(1))
			}
			x.store(s2, lv, x.binop(s2, op, v, one, lv.ty, s.Pos()), s.Pos())
			k(s2)
		})
	case *ast.IfStmt:
		x.exec(fr, st, s.Init, func(s1 *State) {
			x.eval(fr, s1, s.Cond, func(s2 *State, c Val) {
				x.branch(s2, c.T, func(a *State) {
					x.exec(fr, a, s.Body, k, ctl, "")
				}, func(b *State) {
					if s.Else == nil {
						k(b)
					} else {
						x.exec(fr, b, s.Else, k, ctl, "")
					}
				})
			})
		}, ctl, "")
	case *ast.SwitchStmt:
		x.switchStmt(fr, st, s, k, ctl, label)
	case *ast.TypeSwitchStmt:
		x.typeSwitch(fr, st, s, k, ctl, label)
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			x.doReturn(fr, st, nil)
			return
		}
		x.evalList(fr, st, s.Results, func(s2 *State, vs []Val) {
			// assign to named results (so that defers / specs could see them)
			var out []Val
			for i, v := range vs {
				out = append(out, x.convertAssign(s2, v, fr.sig.Results().At(i).Type()))
			}
			x.doReturn(fr, s2, out)
		})
	case *ast.BranchStmt:
		lab := ""
		if s.Label != nil {
			lab = s.Label.Name
		}
		for c := ctl; c != nil; c = c.parent {
			if s.Tok == token.BREAK && (lab == "" || c.label == lab) {
				c.brk(st)
				return
			}
			if s.Tok == token.CONTINUE && c.isLoop && (lab == "" || c.label == lab) {
				c.cont(st)
				return
			}
		}
		panic(unsup("branch " + s.Tok.String()))
	case *ast.ForStmt:
		x.forStmt(fr, st, s, k, ctl, label)
	case *ast.RangeStmt:
		x.rangeStmt(fr, st, s, k, ctl, label)
	default:
		panic(unsup(fmt.Sprintf("statement %T at %s", s, x.posStr(s.Pos()))))
	}
}

func (x *X) declSpecs(fr *Frame, st *State, specs []ast.Spec, k func(*State)) {
	if len(specs) == 0 {
		k(st)
		return
	}
	vs := specs[0].(*ast.ValueSpec)
	rest := func(s *State) { x.declSpecs(fr, s, specs[1:], k) }
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			if v, ok := fr.info.Defs[n].(*types.Var); ok {
				x.declare(fr, st, v, Val{T: zeroOf(v.Type()), Ty: v.Type()})
			}
		}
		rest(st)
		return
	}
	x.evalList(fr, st, vs.Values, func(s2 *State, vals []Val) {
		for i, n := range vs.Names {
			if v, ok := fr.info.Defs[n].(*types.Var); ok && n.Name != "_" {
				x.declare(fr, s2, v, x.convertAssign(s2, vals[i], v.Type()))
			}
		}
		rest(s2)
	})
}

func (x *X) assignStmt(fr *Frame, st *State, s *ast.AssignStmt, k func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR}[s.Tok]
		x.evalLV(fr, st, s.Lhs[0], func(s1 *State, lv *LV) {
			x.eval(fr, s1, s.Rhs[0], func(s2 *State, r Val) {
				v := x.load(s2, lv, s.Pos())
				x.store(s2, lv, x.binop(s2, op, v, r, lv.ty, s.Pos()), s.Pos())
				k(s2)
			})
		})
		return
	}
	x.evalLVs(fr, st, s.Lhs, s.Tok == token.DEFINE, func(s1 *State, lvs []*LV) {
		x.evalList(fr, s1, s.Rhs, func(s2 *State, vals []Val) {
			for i, lv := range lvs {
				x.assignLV(fr, s2, lv, vals[i], s.Lhs[i].Pos())
			}
			k(s2)
		})
	})
}

func (x *X) assignLV(fr *Frame, st *State, lv *LV, v Val, pos token.Pos) {
	switch lv.kind {
	case "blank":
	case "define":
		if v.Fn != nil {
			st.env[lv.obj] = Val{Fn: v.Fn, Ty: lv.obj.Type(), T: v.T}
			return
		}
		x.declare(fr, st, lv.obj, x.convertAssign(st, v, lv.obj.Type()))
	default:
		x.store(st, lv, x.convertAssign(st, v, lv.ty), pos)
	}
}

func (x *X) evalLVs(fr *Frame, st *State, es []ast.Expr, def bool, k func(*State, []*LV)) {
	if len(es) == 0 {
		k(st, nil)
		return
	}
	one := func(s *State, lv *LV) {
		x.evalLVs(fr, s, es[1:], def, func(s2 *State, r []*LV) { k(s2, append([]*LV{lv}, r...)) })
	}
	if id, ok := es[0].(*ast.Ident); ok {
		if id.Name == "_" {
			one(st, &LV{kind: "blank"})
			return
		}
		if def {
			if v, ok := fr.info.Defs[id].(*types.Var); ok && v != nil {
				one(st, &LV{kind: "define", obj: v, ty: v.Type()})
				return
			}
		}
	}
	x.evalLV(fr, st, es[0], one)
}

func (x *X) switchStmt(fr *Frame, st *State, s *ast.SwitchStmt, k func(*State), ctl *Ctl, label string) {
	x.exec(fr, st, s.Init, func(s1 *State) {
		nctl := &Ctl{label: label, brk: k, parent: ctl}
		var tagTy types.Type
		run := func(s2 *State, tag *Val) {
			clauses := s.Body.List
			var dflt *ast.CaseClause
			var step func(st *State, i int)
			var runBody func(st *State, i int)
			runBody = func(st *State, i int) {
				cc := clauses[i].(*ast.CaseClause)
				body := cc.Body
				if n := len(body); n > 0 {
					if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						x.execBlock(fr, st, body[:n-1], func(s *State) { runBody(s, i+1) }, nctl)
						return
					}
				}
				x.execBlock(fr, st, body, k, nctl)
			}
			step = func(st *State, i int) {
				if i == len(clauses) {
					if dflt != nil {
						for j, c := range clauses {
							if c == dflt {
								runBody(st, j)
							}
						}
						return
					}
					k(st)
					return
				}
				cc := clauses[i].(*ast.CaseClause)
				if cc.List == nil {
					dflt = cc
					step(st, i+1)
					return
				}
				x.evalList(fr, st, cc.List, func(s3 *State, vs []Val) {
					var cs []*Term
					for j, v := range vs {
						if tag == nil {
							cs = append(cs, v.T)
						} else {
							cs = append(cs, x.eqVals(s3, *tag, v, tagTy, fr.info.TypeOf(cc.List[j])))
						}
					}
					x.branch(s3, tOr(cs...), func(a *State) { runBody(a, i) }, func(b *State) { step(b, i+1) })
				})
			}
			step(s2, 0)
		}
		if s.Tag == nil {
			run(s1, nil)
			return
		}
		tagTy = fr.info.TypeOf(s.Tag)
		x.eval(fr, s1, s.Tag, func(s2 *State, v Val) { run(s2, &v) })
	}, ctl, "")
}

func (x *X) typeSwitch(fr *Frame, st *State, s *ast.TypeSwitchStmt, k func(*State), ctl *Ctl, label string) {
	x.exec(fr, st, s.Init, func(s1 *State) {
		nctl := &Ctl{label: label, brk: k, parent: ctl}
		var te *ast.TypeAssertExpr
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			te = a.X.(*ast.TypeAssertExpr)
		case *ast.AssignStmt:
			te = a.Rhs[0].(*ast.TypeAssertExpr)
		}
		x.eval(fr, s1, te.X, func(s2 *State, v Val) {
			var dflt *ast.CaseClause
			bind := func(st *State, cc *ast.CaseClause, val Val) {
				if o, ok := fr.info.Implicits[cc].(*types.Var); ok {
					val.Ty = o.Type()
					x.declare(fr, st, o, val)
				}
			}
			var step func(st *State, i int)
			step = func(st *State, i int) {
				if i == len(s.Body.List) {
					if dflt != nil {
						bind(st, dflt, v)
						x.execBlock(fr, st, dflt.Body, k, nctl)
						return
					}
					k(st)
					return
				}
				cc := s.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					dflt = cc
					step(st, i+1)
					return
				}
				var cs []*Term
				val := v
				for _, te := range cc.List {
					t := fr.info.TypeOf(te)
					if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
						cs = append(cs, tEq(v.T, tInt(0)))
						continue
					}
					cs = append(cs, x.typeIs(st, v.T, t))
					if len(cc.List) == 1 {
						val = x.unboxIface(v, t)
					}
				}
				x.branch(st, tOr(cs...), func(a *State) {
					bind(a, cc, val)
					x.execBlock(fr, a, cc.Body, k, nctl)
				}, func(b *State) { step(b, i+1) })
			}
			step(s2, 0)
		})
	}, ctl, "")
}

func (x *X) typeIs(st *State, r *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if t.Underlying().(*types.Interface).NumMethods() == 0 {
			return tNot(tEq(r, tInt(0)))
		}
		return tAnd(tNot(tEq(r, tInt(0))), x.implPred(t, r))
	}
	return tAnd(tNot(tEq(r, tInt(0))), tEq(tTypeof(r), typeId(t)))
}

// boxFun returns the functions that box and unbox values of type t: one pair for each type, because the dynamic type
// is part of the boxed value.
func boxFun(kind string, t types.Type) (string, string) {
	n := "box" + kind
	switch types.Unalias(t) {
	case types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Float64]:
		return n, "un" + n
	}
	n += "$" + sanitize(types.TypeString(t, nil))
	if _, ok := funTab[n]; !ok {
		srt := sortOf(t)
		declFun(n, []string{srt}, "Int")
		declFun("un"+n, []string{"Int"}, srt)
	}
	return n, "un" + n
}

// boxing of non-reference values in interfaces
func (x *X) boxIface(st *State, v Val, src types.Type) *Term {
	switch src.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return v.T
	case *types.Map, *types.Chan:
		return v.T
	}
	switch sortOf(src) {
	case "Int":
		bi, ui := boxFun("int", src)
		t := tApp(bi, v.T)
		st.assume(tEq(tApp(ui, t), v.T))
		st.assume(tLt(t, tInt(0)))
		st.assume(tEq(tTypeof(t), typeId(src)))
		return t
	case "Str":
		bi, ui := boxFun("str", src)
		t := tApp(bi, v.T)
		st.assume(tEq(tApp(ui, t), v.T))
		st.assume(tLt(t, tInt(0)))
		st.assume(tEq(tTypeof(t), typeId(src)))
		return t
	case "F":
		bi, ui := boxFun("f", src)
		t := tApp(bi, v.T)
		st.assume(tEq(tApp(ui, t), v.T))
		st.assume(tLt(t, tInt(0)))
		st.assume(tEq(tTypeof(t), typeId(src)))
		return t
	}
	// opaque box
	srt := sortOf(src)
	n := "box$" + sanitize(srt) + "$" + sanitize(types.TypeString(src, nil))
	if _, ok := funTab[n]; !ok {
		declFun(n, []string{srt}, "Int")
		declFun("un"+n, []string{"Int"}, srt)
	}
	t := tApp(n, v.T)
	st.assume(tEq(tApp("un"+n, t), v.T))
	st.assume(tLt(t, tInt(0)))
	st.assume(tEq(tTypeof(t), typeId(src)))
	return t
}

func (x *X) unboxIface(v Val, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
		return Val{T: v.T, Ty: t}
	}
	switch sortOf(t) {
	case "Int":
		_, ui := boxFun("int", t)
		return Val{T: tApp(ui, v.T), Ty: t}
	case "Str":
		_, ui := boxFun("str", t)
		return Val{T: tApp(ui, v.T), Ty: t}
	case "F":
		_, ui := boxFun("f", t)
		return Val{T: tApp(ui, v.T), Ty: t}
	}
	srt := sortOf(t)
	n := "box$" + sanitize(srt) + "$" + sanitize(types.TypeString(t, nil))
	if _, ok := funTab[n]; !ok {
		declFun(n, []string{srt}, "Int")
		declFun("un"+n, []string{"Int"}, srt)
	}
	return Val{T: tApp("un"+n, v.T), Ty: t}
}

// convertAssign performs the implicit conversion of assignment (boxing into interfaces).
func (x *X) convertAssign(st *State, v Val, to types.Type) Val {
	if v.Fn != nil {
		v.Ty = to
		if v.T == nil {
			v.T = tInt(1)
		}
		return v
	}
	if _, ok := to.Underlying().(*types.Interface); ok && v.Ty != nil {
		if b, isB := v.Ty.(*types.Basic); isB && b.Kind() == types.UntypedNil {
			return Val{T: tInt(0), Ty: to}
		}
		if _, isI := v.Ty.Underlying().(*types.Interface); !isI {
			if p, ok := v.Ty.(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && !x.prog.isEmbedded(n) {
					st.assume(tOr(tEq(v.T, tInt(0)), tEq(tTypeof(v.T), typeId(v.Ty))))
				}
			}
			return Val{T: x.boxIface(st, v, v.Ty), Ty: to}
		}
		return Val{T: v.T, Ty: to}
	}
	if v.Ty != nil && v.T != nil {
		if b, isB := v.Ty.(*types.Basic); isB && b.Kind() == types.UntypedNil {
			return Val{T: zeroOf(to), Ty: to}
		}
		ts := sortOf(to)
		if v.T.Sort != ts {
			if v.T.Sort == "Int" && ts == "F" {
				return Val{T: fFin(v.T), Ty: to}
			}
			panic(unsup(fmt.Sprintf("conversion of %s to %s", v.T.Sort, ts)))
		}
	}
	return Val{T: v.T, Ty: to}
}

// ---------- lvalues ----------

type LV struct {
	kind string // blank define var field elem map cell sfield glob aelem
	obj  *types.Var
	ref  *Term
	comp string
	idx  *Term
	ty   types.Type
	base *LV
	sel  string
	mty  types.Type
	sl   *Term
}

func (x *X) evalLV(fr *Frame, st *State, e ast.Expr, k func(*State, *LV)) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.evalLV(fr, st, e.X, k)
	case *ast.Ident:
		v, ok := fr.info.ObjectOf(e).(*types.Var)
		if !ok {
			panic(unsup("assignment to " + e.Name))
		}
		if v.Parent() == v.Pkg().Scope() {
			k(st, &LV{kind: "glob", comp: compGlob(v), ty: v.Type()})
			return
		}
		if cur, ok := st.env[v]; ok && cur.Loc {
			k(st, x.refLV(cur.T, v.Type()))
			return
		}
		k(st, &LV{kind: "var", obj: v, ty: v.Type()})
	case *ast.StarExpr:
		x.eval(fr, st, e.X, func(s *State, v Val) {
			x.nonNil(s, v.T, exprStr(e.X), e.Pos())
			k(s, x.refLV(v.T, fr.info.TypeOf(e)))
		})
	case *ast.SelectorExpr:
		sel := fr.info.Selections[e]
		if sel == nil {
			// qualified package variable
			v, ok := fr.info.Uses[e.Sel].(*types.Var)
			if !ok {
				panic(unsup("selector " + exprStr(e)))
			}
			k(st, &LV{kind: "glob", comp: compGlob(v), ty: v.Type()})
			return
		}
		x.fieldLV(fr, st, e, sel, k)
	case *ast.IndexExpr:
		bt := fr.info.TypeOf(e.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			x.eval(fr, st, e.X, func(s1 *State, b Val) {
				x.eval(fr, s1, e.Index, func(s2 *State, i Val) {
					x.boundsOb(s2, b.T, i.T, e)
					k(s2, &LV{kind: "elem", comp: compElem(u.Elem()), ref: tField("sl_arr", b.T), idx: tIdx(tField("sl_off", b.T), i.T), ty: u.Elem()})
				})
			})
		case *types.Map:
			x.eval(fr, st, e.X, func(s1 *State, b Val) {
				x.eval(fr, s1, e.Index, func(s2 *State, i Val) {
					i = x.convertAssign(s2, i, u.Key())
					k(s2, &LV{kind: "map", ref: b.T, idx: i.T, ty: u.Elem(), mty: bt})
				})
			})
		case *types.Array:
			x.evalLV(fr, st, e.X, func(s1 *State, b *LV) {
				x.eval(fr, s1, e.Index, func(s2 *State, i Val) {
					x.panicOb(s2, "array index "+exprStr(e), e.Pos(), tAnd(tLe(tInt(0), i.T), tLt(i.T, tInt(u.Len()))))
					k(s2, &LV{kind: "aelem", base: b, idx: i.T, ty: u.Elem()})
				})
			})
		case *types.Pointer:
			panic(unsup("index of pointer to array"))
		default:
			panic(unsup("index assignment " + typeKey(bt)))
		}
	default:
		// not addressable: evaluate to a temporary
		x.eval(fr, st, e, func(s *State, v Val) {
			k(s, &LV{kind: "tmp", ref: v.T, ty: v.Ty})
		})
	}
}

func (x *X) boundsOb(st *State, sl, i *Term, e ast.Node) {
	x.panicOb(st, "index in range", e.Pos(), tAnd(tLe(tInt(0), i), tLt(i, tField("sl_len", sl))))
}

func (x *X) refLV(r *Term, ty types.Type) *LV {
	if _, ok := ty.Underlying().(*types.Struct); ok {
		return &LV{kind: "struct", ref: r, ty: ty}
	}
	return &LV{kind: "field", comp: compCell(ty), ref: r, ty: ty}
}

// stepField: select field i of the struct lvalue lv
func (x *X) stepField(st *State, lv *LV, i int, pos token.Pos) *LV {
	ty := lv.ty
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		v := x.load(st, lv, pos)
		x.nonNil(st, v.T, "pointer", pos)
		lv = &LV{kind: "struct", ref: v.T, ty: p.Elem()}
		ty = p.Elem()
	}
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		panic(unsup("field of " + typeKey(ty)))
	}
	f := s.Field(i)
	if lv.kind == "struct" {
		if _, isS := f.Type().Underlying().(*types.Struct); isS && f.Embedded() {
			return &LV{kind: "struct", ref: lv.ref, ty: f.Type()}
		}
		return &LV{kind: "field", comp: compField(ty, f), ref: lv.ref, ty: f.Type()}
	}
	return &LV{kind: "sfield", base: lv, sel: structFieldSel(ty, i), idx: tInt(int64(i)), ty: f.Type()}
}

func (x *X) fieldLV(fr *Frame, st *State, e *ast.SelectorExpr, sel *types.Selection, k func(*State, *LV)) {
	start := func(s *State, lv *LV) {
		for _, i := range sel.Index() {
			lv = x.stepField(s, lv, i, e.Pos())
		}
		k(s, lv)
	}
	if _, ok := fr.info.TypeOf(e.X).Underlying().(*types.Pointer); ok {
		x.eval(fr, st, e.X, func(s *State, v Val) {
			x.nonNil(s, v.T, exprStr(e.X), e.Pos())
			start(s, &LV{kind: "struct", ref: v.T, ty: fr.info.TypeOf(e.X).Underlying().(*types.Pointer).Elem()})
		})
		return
	}
	x.evalLV(fr, st, e.X, start)
}

func (x *X) load(st *State, lv *LV, pos token.Pos) Val {
	var v Val
	switch lv.kind {
	case "var":
		return x.varVal(st, lv.obj)
	case "tmp":
		return Val{T: lv.ref, Ty: lv.ty}
	case "struct":
		v = Val{T: x.loadStruct(st, lv.ref, lv.ty), Ty: lv.ty}
		return v
	case "field":
		v = Val{T: tSel(x.comp(st, lv.comp), lv.ref), Ty: lv.ty}
	case "elem":
		v = Val{T: tSel(tSel(x.comp(st, lv.comp), lv.ref), lv.idx), Ty: lv.ty}
	case "map":
		d := tSel(x.mapDom(st, lv.ref, lv.mty), lv.idx)
		st.assume(tImp(tEq(lv.ref, tInt(0)), tNot(d)))
		v = Val{T: tIte(d, tSel(x.mapVals(st, lv.ref, lv.mty), lv.idx), zeroOf(lv.ty)), Ty: lv.ty}
	case "glob":
		v = Val{T: x.comp(st, lv.comp), Ty: lv.ty}
	case "sfield":
		b := x.load(st, lv.base, pos)
		v = Val{T: tField(lv.sel, b.T), Ty: lv.ty}
	case "aelem":
		b := x.load(st, lv.base, pos)
		v = Val{T: tSel(b.T, lv.idx), Ty: lv.ty}
	default:
		panic("load " + lv.kind)
	}
	return x.loadWf(st, v)
}

func (x *X) store(st *State, lv *LV, v Val, pos token.Pos) {
	switch lv.kind {
	case "blank":
	case "var":
		if cur, ok := st.env[lv.obj]; ok && cur.Loc {
			x.store(st, x.refLV(cur.T, lv.ty), v, pos)
			return
		}
		v.Ty = lv.ty
		st.env[lv.obj] = v
	case "struct":
		x.storeStruct(st, lv.ref, lv.ty, lv.ty.Underlying().(*types.Struct), v.T, false)
		if ts := x.specs.Types[typeKey(lv.ty)]; ts != nil && len(ts.Ghost) > 0 {
			panic(unsup("whole assignment to a value of type " + ts.Key))
		}
	case "field":
		x.write(st, lv.comp, lv.ref, v.T)
	case "elem":
		x.write(st, lv.comp, lv.ref, tStore(tSel(x.comp(st, lv.comp), lv.ref), lv.idx, v.T))
	case "map":
		x.panicOb(st, "write to nil map", pos, tNot(tEq(lv.ref, tInt(0))))
		md, mv := compMD(lv.mty), compMV(lv.mty)
		x.write(st, md, lv.ref, tStore(tSel(x.comp(st, md), lv.ref), lv.idx, tTrue))
		x.write(st, mv, lv.ref, tStore(tSel(x.comp(st, mv), lv.ref), lv.idx, v.T))
	case "glob":
		st.heap[lv.comp] = v.T
		st.addLog(WEnt{Comp: lv.comp, Target: tInt(0)})
	case "sfield":
		b := x.load(st, lv.base, pos)
		srt := b.T.Sort
		c := datatypes[srt].Ctors[0]
		var args []*Term
		for _, f := range c.Fields {
			if f.Name == lv.sel {
				args = append(args, v.T)
			} else {
				args = append(args, tField(f.Name, b.T))
			}
		}
		x.store(st, lv.base, Val{T: tCtor(c.Name, args...), Ty: b.Ty}, pos)
	case "aelem":
		b := x.load(st, lv.base, pos)
		x.store(st, lv.base, Val{T: tStore(b.T, lv.idx, v.T), Ty: b.Ty}, pos)
	default:
		panic(unsup("store to " + lv.kind))
	}
}

// ---------- expressions ----------

func (x *X) evalList(fr *Frame, st *State, es []ast.Expr, k func(*State, []Val)) {
	if len(es) == 1 {
		x.evalMulti(fr, st, es[0], k)
		return
	}
	if len(es) == 0 {
		k(st, nil)
		return
	}
	x.eval(fr, st, es[0], func(s *State, v Val) {
		x.evalRest(fr, s, es[1:], []Val{v}, k)
	})
}

func (x *X) evalRest(fr *Frame, st *State, es []ast.Expr, acc []Val, k func(*State, []Val)) {
	if len(es) == 0 {
		k(st, acc)
		return
	}
	x.eval(fr, st, es[0], func(s *State, v Val) {
		x.evalRest(fr, s, es[1:], append(append([]Val{}, acc...), v), k)
	})
}

// evalMulti evaluates an expression that may yield several values (call, map index / assertion in comma-ok form).
func (x *X) evalMulti(fr *Frame, st *State, e ast.Expr, k func(*State, []Val)) {
	tv := fr.info.Types[e]
	if tup, ok := tv.Type.(*types.Tuple); ok {
		switch p := ast.Unparen(e).(type) {
		case *ast.CallExpr:
			x.call(fr, st, p, k)
			return
		case *ast.IndexExpr:
			mt := fr.info.TypeOf(p.X)
			x.eval(fr, st, p.X, func(s1 *State, m Val) {
				x.eval(fr, s1, p.Index, func(s2 *State, i Val) {
					kt, vt := mapKV(mt)
					i = x.convertAssign(s2, i, kt)
					d := tSel(x.mapDom(s2, m.T, mt), i.T)
					s2.assume(tImp(tEq(m.T, tInt(0)), tNot(d)))
					v := x.loadWf(s2, Val{T: tIte(d, tSel(x.mapVals(s2, m.T, mt), i.T), zeroOf(vt)), Ty: vt})
					k(s2, []Val{v, {T: d, Ty: types.Typ[types.Bool]}})
				})
			})
			return
		case *ast.TypeAssertExpr:
			x.eval(fr, st, p.X, func(s1 *State, v Val) {
				t := fr.info.TypeOf(p.Type)
				c := x.typeIs(s1, v.T, t)
				u := x.unboxIface(v, t)
				k(s1, []Val{{T: tIte(c, u.T, zeroOf(t)), Ty: t}, {T: c, Ty: types.Typ[types.Bool]}})
			})
			return
		}
		_ = tup
		panic(unsup("multi-value " + exprStr(e)))
	}
	if c, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		x.call(fr, st, c, k)
		return
	}
	x.eval(fr, st, e, func(s *State, v Val) { k(s, []Val{v}) })
}

func (x *X) constVal(tv types.TypeAndValue) (Val, bool) {
	if tv.Value == nil {
		return Val{}, false
	}
	ty := tv.Type
	switch tv.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(tv.Value) {
			return Val{T: tTrue, Ty: ty}, true
		}
		return Val{T: tFalse, Ty: ty}, true
	case constant.String:
		return Val{T: tStr(constant.StringVal(tv.Value)), Ty: ty}, true
	case constant.Int, constant.Float:
		b, _ := ty.Underlying().(*types.Basic)
		if b != nil && b.Info()&types.IsFloat != 0 {
			return Val{T: fFin(tReal(ratOf(tv.Value))), Ty: ty}, true
		}
		if b != nil && b.Info()&types.IsInteger != 0 {
			iv := constant.ToInt(tv.Value)
			n, ok := new(big.Int).SetString(iv.ExactString(), 10)
			if ok {
				return Val{T: tBig(n), Ty: ty}, true
			}
		}
	}
	return Val{}, false
}

func ratOf(v constant.Value) *big.Rat {
	v = constant.ToFloat(v)
	// float64 constants are rounded to float64
	f, _ := constant.Float64Val(v)
	r := new(big.Rat)
	if s := v.ExactString(); s != "" {
		if _, ok := r.SetString(s); ok {
			return r
		}
	}
	r.SetFloat64(f)
	return r
}

func simpleExpr(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, isId := n.Fun.(*ast.Ident); isId && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			ok = false
		case *ast.IndexExpr:
			if _, isM := info.TypeOf(n.X).Underlying().(*types.Map); !isM {
				ok = false
			}
		case *ast.StarExpr, *ast.TypeAssertExpr, *ast.FuncLit, *ast.SliceExpr, *ast.CompositeLit:
			ok = false
		case *ast.SelectorExpr:
			if s := info.Selections[n]; s != nil {
				ok = false
			}
		case *ast.BinaryExpr:
			if n.Op == token.QUO || n.Op == token.REM || n.Op == token.SHL || n.Op == token.SHR {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (x *X) eval(fr *Frame, st *State, e ast.Expr, k func(*State, Val)) {
	if v, ok := x.constVal(fr.info.Types[e]); ok {
		k(st, v)
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.eval(fr, st, e.X, k)
	case *ast.Ident:
		switch o := fr.info.ObjectOf(e).(type) {
		case *types.Nil:
			k(st, Val{T: tInt(0), Ty: types.Typ[types.UntypedNil]})
		case *types.Var:
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				k(st, x.load(st, &LV{kind: "glob", comp: compGlob(o), ty: o.Type()}, e.Pos()))
				return
			}
			k(st, x.varVal(st, o))
		case *types.Func:
			k(st, Val{T: tInt(1), Ty: o.Type(), Fn: &FnVal{Obj: o, Sig: o.Type().(*types.Signature)}})
		default:
			panic(unsup("identifier " + e.Name))
		}
	case *ast.SelectorExpr:
		sel := fr.info.Selections[e]
		if sel == nil {
			switch o := fr.info.Uses[e.Sel].(type) {
			case *types.Var:
				k(st, x.load(st, &LV{kind: "glob", comp: compGlob(o), ty: o.Type()}, e.Pos()))
				return
			case *types.Func:
				k(st, Val{T: tInt(1), Ty: o.Type(), Fn: &FnVal{Obj: o, Sig: o.Type().(*types.Signature)}})
				return
			}
			panic(unsup("selector " + exprStr(e)))
		}
		if sel.Kind() == types.FieldVal {
			x.fieldLV(fr, st, e, sel, func(s *State, lv *LV) { k(s, x.load(s, lv, e.Pos())) })
			return
		}
		panic(unsup("method value " + exprStr(e)))
	case *ast.IndexExpr:
		bt := fr.info.TypeOf(e.X)
		if b, ok := bt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.eval(fr, st, e.X, func(s1 *State, b Val) {
				x.eval(fr, s1, e.Index, func(s2 *State, i Val) {
					x.panicOb(s2, "string index", e.Pos(), tAnd(tLe(tInt(0), i.T), tLt(i.T, tApp("strlen", b.T))))
					k(s2, Val{T: tApp("strat", b.T, i.T), Ty: fr.info.TypeOf(e)})
				})
			})
			return
		}
		x.evalLV(fr, st, e, func(s *State, lv *LV) { k(s, x.load(s, lv, e.Pos())) })
	case *ast.StarExpr:
		x.evalLV(fr, st, e, func(s *State, lv *LV) { k(s, x.load(s, lv, e.Pos())) })
	case *ast.CallExpr:
		x.call(fr, st, e, func(s *State, vs []Val) {
			if len(vs) == 0 {
				k(s, Val{})
				return
			}
			k(s, vs[0])
		})
	case *ast.BinaryExpr:
		x.evalBinary(fr, st, e, k)
	case *ast.UnaryExpr:
		x.evalUnary(fr, st, e, k)
	case *ast.CompositeLit:
		x.compositeLit(fr, st, e, fr.info.TypeOf(e), k)
	case *ast.FuncLit:
		k(st, Val{T: tInt(1), Ty: fr.info.TypeOf(e), Fn: &FnVal{Lit: e, Fr: fr, Sig: fr.info.TypeOf(e).(*types.Signature)}})
	case *ast.SliceExpr:
		x.sliceExpr(fr, st, e, k)
	case *ast.TypeAssertExpr:
		x.eval(fr, st, e.X, func(s *State, v Val) {
			t := fr.info.TypeOf(e.Type)
			c := x.typeIs(s, v.T, t)
			x.panicOb(s, "type assertion "+exprStr(e), e.Pos(), c)
			u := x.unboxIface(v, t)
			k(s, x.loadWf(s, u))
		})
	default:
		panic(unsup(fmt.Sprintf("expression %T %s", e, exprStr(e))))
	}
}

func (x *X) evalUnary(fr *Frame, st *State, e *ast.UnaryExpr, k func(*State, Val)) {
	switch e.Op {
	case token.AND:
		if cl, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
			t := fr.info.TypeOf(cl)
			x.compositeLit(fr, st, cl, t, func(s *State, v Val) {
				r := x.newRef(s)
				x.initRef(s, r, t, v.T)
				k(s, Val{T: r, Ty: fr.info.TypeOf(e)})
			})
			return
		}
		x.evalLV(fr, st, e.X, func(s *State, lv *LV) {
			switch lv.kind {
			case "struct":
				k(s, Val{T: lv.ref, Ty: fr.info.TypeOf(e)})
			case "field":
				if strings.HasPrefix(lv.comp, "c.") {
					k(s, Val{T: lv.ref, Ty: fr.info.TypeOf(e)})
					return
				}
				panic(unsup("address of field " + exprStr(e)))
			default:
				panic(unsup("address of " + exprStr(e)))
			}
		})
	case token.NOT:
		x.eval(fr, st, e.X, func(s *State, v Val) { k(s, Val{T: tNot(v.T), Ty: v.Ty}) })
	case token.SUB:
		x.eval(fr, st, e.X, func(s *State, v Val) {
			if v.T.Sort == "F" {
				if isFin(v.T) {
					k(s, Val{T: fFin(tNeg(v.T.Args[0])), Ty: v.Ty})
					return
				}
				k(s, Val{T: tApp("fneg", v.T), Ty: v.Ty})
				return
			}
			k(s, Val{T: tNeg(v.T), Ty: v.Ty})
		})
	case token.ADD:
		x.eval(fr, st, e.X, k)
	default:
		panic(unsup("unary " + e.Op.String()))
	}
}

func (x *X) evalBinary(fr *Frame, st *State, e *ast.BinaryExpr, k func(*State, Val)) {
	if e.Op == token.LAND || e.Op == token.LOR {
		bt := types.Typ[types.Bool]
		if simpleExpr(fr.info, e.Y) {
			x.eval(fr, st, e.X, func(s1 *State, a Val) {
				x.eval(fr, s1, e.Y, func(s2 *State, b Val) {
					if e.Op == token.LAND {
						k(s2, Val{T: tAnd(a.T, b.T), Ty: bt})
					} else {
						k(s2, Val{T: tOr(a.T, b.T), Ty: bt})
					}
				})
			})
			return
		}
		x.eval(fr, st, e.X, func(s1 *State, a Val) {
			if e.Op == token.LAND {
				x.branch(s1, a.T, func(s2 *State) { x.eval(fr, s2, e.Y, k) }, func(s2 *State) { k(s2, Val{T: tFalse, Ty: bt}) })
			} else {
				x.branch(s1, a.T, func(s2 *State) { k(s2, Val{T: tTrue, Ty: bt}) }, func(s2 *State) { x.eval(fr, s2, e.Y, k) })
			}
		})
		return
	}
	x.eval(fr, st, e.X, func(s1 *State, a Val) {
		x.eval(fr, s1, e.Y, func(s2 *State, b Val) {
			switch e.Op {
			case token.EQL:
				k(s2, Val{T: x.eqVals(s2, a, b, fr.info.TypeOf(e.X), fr.info.TypeOf(e.Y)), Ty: fr.info.TypeOf(e)})
				return
			case token.NEQ:
				k(s2, Val{T: tNot(x.eqVals(s2, a, b, fr.info.TypeOf(e.X), fr.info.TypeOf(e.Y))), Ty: fr.info.TypeOf(e)})
				return
			}
			k(s2, x.binop(s2, e.Op, a, b, fr.info.TypeOf(e), e.Pos()))
		})
	})
}

func isNilType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (x *X) eqVals(st *State, a, b Val, ta, tb types.Type) *Term {
	if isNilType(tb) {
		a, b, ta, tb = b, a, tb, ta
	}
	if isNilType(ta) {
		switch tb.Underlying().(type) {
		case *types.Slice:
			return tEq(tField("sl_arr", b.T), tInt(0))
		case *types.Signature:
			if b.Fn != nil && b.Fn.Unk == "" {
				return tFalse
			}
			return tEq(b.T, tInt(0))
		}
		return tEq(b.T, tInt(0))
	}
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		b = Val{T: x.boxIface(st, b, tb), Ty: ta}
	} else if ib && !ia {
		a = Val{T: x.boxIface(st, a, ta), Ty: tb}
	}
	if a.T.Sort == "F" || b.T.Sort == "F" {
		at, bt := a.T, b.T
		if at.Sort == "Int" {
			at = fFin(at)
		}
		if bt.Sort == "Int" {
			bt = fFin(bt)
		}
		return tF2("feq", at, bt)
	}
	return tEq(a.T, b.T)
}

func (x *X) binop(st *State, op token.Token, a, b Val, ty types.Type, pos token.Pos) Val {
	at, bt := a.T, b.T
	if at.Sort == "F" || bt.Sort == "F" {
		if at.Sort == "Int" {
			at = fFin(at)
		}
		if bt.Sort == "Int" {
			bt = fFin(bt)
		}
		switch op {
		case token.ADD:
			r := tF2("fadd", at, bt)
			x.logHints(st, at, bt, "+")
			return Val{T: r, Ty: ty}
		case token.SUB:
			r := tF2("fsub", at, bt)
			return Val{T: r, Ty: ty}
		case token.MUL:
			return Val{T: tF2("fmul", at, bt), Ty: ty}
		case token.QUO:
			return Val{T: tF2("fdiv", at, bt), Ty: ty}
		case token.LSS:
			return Val{T: tF2("flt", at, bt), Ty: ty}
		case token.LEQ:
			return Val{T: tF2("fle", at, bt), Ty: ty}
		case token.GTR:
			return Val{T: tF2("flt", bt, at), Ty: ty}
		case token.GEQ:
			return Val{T: tF2("fle", bt, at), Ty: ty}
		}
		panic(unsup("float op " + op.String()))
	}
	if at.Sort == "Str" {
		switch op {
		case token.ADD:
			return Val{T: tApp("strcat", at, bt), Ty: ty}
		case token.LSS:
			return Val{T: tApp("strlt", at, bt), Ty: ty}
		case token.GTR:
			return Val{T: tApp("strlt", bt, at), Ty: ty}
		}
		panic(unsup("string op " + op.String()))
	}
	if at.Sort != "Int" || bt.Sort != "Int" {
		panic(unsup("operands of " + op.String()))
	}
	uns := false
	if bb, ok := ty.Underlying().(*types.Basic); ok && bb.Info()&types.IsUnsigned != 0 {
		uns = true
	}
	switch op {
	case token.ADD:
		return Val{T: tAdd(at, bt), Ty: ty}
	case token.SUB:
		if uns {
			x.oblige(st, "unsigned subtraction does not wrap", "overflow", pos, tLe(bt, at))
		}
		return Val{T: tSub(at, bt), Ty: ty}
	case token.MUL:
		return Val{T: tMul(at, bt), Ty: ty}
	case token.QUO, token.REM:
		x.panicOb(st, "division by zero", pos, tNot(tEq(bt, tInt(0))))
		n := "tdiv"
		if op == token.REM {
			n = "tmod"
		}
		if av, ok := intVal(at); ok {
			if bv, ok := intVal(bt); ok && bv.Sign() != 0 {
				if op == token.QUO {
					return Val{T: tBig(new(big.Int).Quo(av, bv)), Ty: ty}
				}
				return Val{T: tBig(new(big.Int).Rem(av, bv)), Ty: ty}
			}
		}
		return Val{T: tApp(n, at, bt), Ty: ty}
	case token.LSS:
		return Val{T: tCmp("<", at, bt), Ty: ty}
	case token.LEQ:
		return Val{T: tCmp("<=", at, bt), Ty: ty}
	case token.GTR:
		return Val{T: tCmp(">", at, bt), Ty: ty}
	case token.GEQ:
		return Val{T: tCmp(">=", at, bt), Ty: ty}
	case token.SHL, token.SHR:
		if v, ok := intVal(bt); ok && v.IsInt64() && v.Int64() >= 0 && v.Int64() < 63 {
			p := tInt(1 << uint(v.Int64()))
			if op == token.SHL {
				return Val{T: tMul(at, p), Ty: ty}
			}
			return Val{T: mk("div", "Int", at, p), Ty: ty}
		}
		if op == token.SHL {
			return Val{T: tApp("shl", at, bt), Ty: ty}
		}
	}
	codes := map[token.Token]int64{token.AND: 1, token.OR: 2, token.XOR: 3, token.SHR: 4, token.AND_NOT: 5}
	if c, ok := codes[op]; ok {
		return Val{T: tApp("bitop", tInt(c), at, bt), Ty: ty}
	}
	panic(unsup("int op " + op.String()))
}

func (x *X) compositeLit(fr *Frame, st *State, e *ast.CompositeLit, t types.Type, k func(*State, Val)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vals := make([]*Term, u.NumFields())
		for i := range vals {
			vals[i] = zeroOf(u.Field(i).Type())
		}
		var idxs []int
		var es []ast.Expr
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						idxs = append(idxs, j)
					}
				}
				es = append(es, kv.Value)
			} else {
				idxs = append(idxs, i)
				es = append(es, el)
			}
		}
		x.evalRest(fr, st, es, nil, func(s *State, vs []Val) {
			for n, j := range idxs {
				v := x.convertAssign(s, vs[n], u.Field(j).Type())
				vals[j] = v.T
			}
			args := append([]*Term{}, vals...)
			if len(args) == 0 {
				args = append(args, tInt(0))
			}
			srt := sortOf(t)
			k(s, Val{T: tCtor(datatypes[srt].Ctors[0].Name, args...), Ty: t})
		})
	case *types.Slice:
		var es []ast.Expr
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsup("keyed slice literal"))
			}
			es = append(es, el)
		}
		x.evalRestT(fr, st, es, u.Elem(), nil, func(s *State, vs []Val) {
			c := compElem(u.Elem())
			r := x.newRef(s)
			arr := tConstArr(arrSort("Int", sortOf(u.Elem())), zeroOf(u.Elem()))
			for i, v := range vs {
				arr = tStore(arr, tInt(int64(i)), v.T)
			}
			x.write(s, c, r, arr)
			n := tInt(int64(len(vs)))
			k(s, Val{T: tCtor("mkslice", r, tInt(0), n, n), Ty: t})
		})
	case *types.Map:
		r := x.newRef(st)
		kt, vt := mapKV(t)
		var es []ast.Expr
		for _, el := range e.Elts {
			kv := el.(*ast.KeyValueExpr)
			es = append(es, kv.Key, kv.Value)
		}
		x.evalRest(fr, st, es, nil, func(s *State, vs []Val) {
			d := tConstArr(arrSort(sortOf(kt), "Bool"), tFalse)
			m := tConstArr(arrSort(sortOf(kt), sortOf(vt)), zeroOf(vt))
			for i := 0; i+1 < len(vs); i += 2 {
				kk := x.convertAssign(s, vs[i], kt)
				vv := x.convertAssign(s, vs[i+1], vt)
				d = tStore(d, kk.T, tTrue)
				m = tStore(m, kk.T, vv.T)
			}
			x.write(s, compMD(t), r, d)
			x.write(s, compMV(t), r, m)
			k(s, Val{T: r, Ty: t})
		})
	case *types.Array:
		x.evalRestT(fr, st, e.Elts, u.Elem(), nil, func(s *State, vs []Val) {
			arr := zeroOf(t)
			for i, v := range vs {
				arr = tStore(arr, tInt(int64(i)), v.T)
			}
			k(s, Val{T: arr, Ty: t})
		})
	default:
		panic(unsup("composite literal of " + typeKey(t)))
	}
}

func (x *X) evalRestT(fr *Frame, st *State, es []ast.Expr, t types.Type, acc []Val, k func(*State, []Val)) {
	if len(es) == 0 {
		k(st, acc)
		return
	}
	next := func(s *State, v Val) {
		v = x.convertAssign(s, v, t)
		x.evalRestT(fr, s, es[1:], t, append(append([]Val{}, acc...), v), k)
	}
	if cl, ok := es[0].(*ast.CompositeLit); ok && cl.Type == nil {
		if p, isP := t.Underlying().(*types.Pointer); isP {
			x.compositeLit(fr, st, cl, p.Elem(), func(s *State, v Val) {
				r := x.newRef(s)
				x.initRef(s, r, p.Elem(), v.T)
				next(s, Val{T: r, Ty: t})
			})
			return
		}
		x.compositeLit(fr, st, cl, t, next)
		return
	}
	x.eval(fr, st, es[0], next)
}

func (x *X) sliceExpr(fr *Frame, st *State, e *ast.SliceExpr, k func(*State, Val)) {
	if e.Slice3 {
		panic(unsup("3-index slice"))
	}
	bt := fr.info.TypeOf(e.X)
	if _, ok := bt.Underlying().(*types.Slice); !ok {
		panic(unsup("slice of " + typeKey(bt)))
	}
	x.eval(fr, st, e.X, func(s1 *State, b Val) {
		opt := func(s *State, ex ast.Expr, dflt *Term, kk func(*State, *Term)) {
			if ex == nil {
				kk(s, dflt)
				return
			}
			x.eval(fr, s, ex, func(s2 *State, v Val) { kk(s2, v.T) })
		}
		ln := tField("sl_len", b.T)
		opt(s1, e.Low, tInt(0), func(s2 *State, lo *Term) {
			opt(s2, e.High, ln, func(s3 *State, hi *Term) {
				x.panicOb(s3, "slice bounds", e.Pos(), tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tField("sl_cap", b.T))))
				r := tCtor("mkslice", tField("sl_arr", b.T), tAdd(tField("sl_off", b.T), lo), tSub(hi, lo), tSub(tField("sl_cap", b.T), lo))
				k(s3, Val{T: r, Ty: bt})
			})
		})
	})
}
