package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type discInfo struct {
	vars  map[*types.Var]bool
	comps map[string]bool
	gvs   map[string]bool
	alloc bool
}

type loopCtx struct {
	ord  int
	spec *LoopSpec
	pre  *State
}

type loopDef struct {
	node  ast.Stmt
	label string
	// head decides whether another iteration runs
	head func(st *State, body, exit func(*State))
	body func(st *State, next func(*State), ctl *Ctl)
	post func(st *State, next func(*State))
	// initial ghost values and automatic invariants
	init  func(st *State)
	auto  func(hs *State, entry *State) // facts that hold at every head by construction
	step  func(st *State)               // ghost update at the back edge (besides $k)
	condE ast.Expr
	kName string
}

func (x *X) loopKey(fr *Frame, n ast.Stmt) string { return fr.path + "#" + strconv.Itoa(int(n.Pos())) }

func (x *X) forStmt(fr *Frame, st *State, s *ast.ForStmt, k func(*State), ctl *Ctl, label string) {
	x.exec(fr, st, s.Init, func(s0 *State) {
		d := &loopDef{node: s, label: label, condE: s.Cond}
		d.head = func(st *State, body, exit func(*State)) {
			if s.Cond == nil {
				body(st)
				return
			}
			x.eval(fr, st, s.Cond, func(s1 *State, c Val) { x.branch(s1, c.T, body, exit) })
		}
		d.body = func(st *State, next func(*State), c *Ctl) { x.execBlock(fr, st, s.Body.List, next, c) }
		d.post = func(st *State, next func(*State)) { x.exec(fr, st, s.Post, next, nil, "") }
		x.runLoop(fr, s0, d, k, ctl)
	}, ctl, "")
}

func (x *X) rangeStmt(fr *Frame, st *State, s *ast.RangeStmt, k func(*State), ctl *Ctl, label string) {
	xt := fr.info.TypeOf(s.X)
	bind := func(st *State, e ast.Expr, v Val, next func(*State)) {
		if e == nil {
			next(st)
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			next(st)
			return
		}
		if s.Tok == token.DEFINE {
			o := fr.info.Defs[e.(*ast.Ident)].(*types.Var)
			x.declare(fr, st, o, x.convertAssign(st, v, o.Type()))
			next(st)
			return
		}
		x.evalLV(fr, st, e, func(s2 *State, lv *LV) {
			x.store(s2, lv, x.convertAssign(s2, v, lv.ty), e.Pos())
			next(s2)
		})
	}
	intT := types.Typ[types.Int]
	x.eval(fr, st, s.X, func(s0 *State, rv Val) {
		d := &loopDef{node: s, label: label}
		d.body = func(st *State, next func(*State), c *Ctl) { x.execBlock(fr, st, s.Body.List, next, c) }
		d.post = func(st *State, next func(*State)) { next(st) }
		switch u := xt.Underlying().(type) {
		case *types.Slice, *types.Array:
			var n *Term
			var et types.Type
			if sl, ok := u.(*types.Slice); ok {
				n = tField("sl_len", rv.T)
				et = sl.Elem()
			} else {
				n = tInt(u.(*types.Array).Len())
				et = u.(*types.Array).Elem()
			}
			d.head = func(st *State, body, exit func(*State)) {
				kk := st.loopk["$k"].T
				x.branch(st, tLt(kk, n), func(a *State) {
					bind(a, s.Key, Val{T: kk, Ty: intT}, func(a2 *State) {
						if s.Value == nil {
							body(a2)
							return
						}
						var v *Term
						if _, ok := u.(*types.Slice); ok {
							v = tSel(tSel(x.comp(a2, compElem(et)), tField("sl_arr", rv.T)), tIdx(tField("sl_off", rv.T), kk))
						} else {
							v = tSel(rv.T, kk)
						}
						bind(a2, s.Value, x.loadWf(a2, Val{T: v, Ty: et}), body)
					})
				}, exit)
			}
			d.auto = func(hs, entry *State) { hs.assume(tLe(hs.loopk["$k"].T, n)) }
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				panic(unsup("range over string"))
			}
			d.head = func(st *State, body, exit func(*State)) {
				kk := st.loopk["$k"].T
				x.branch(st, tLt(kk, rv.T), func(a *State) { bind(a, s.Key, Val{T: kk, Ty: intT}, body) }, exit)
			}
			d.auto = func(hs, entry *State) { hs.assume(tOr(tEq(hs.loopk["$k"].T, tInt(0)), tLe(hs.loopk["$k"].T, rv.T))) }
		case *types.Map:
			kt, vt := u.Key(), u.Elem()
			ks := sortOf(kt)
			ds := arrSort(ks, "Bool")
			dom0 := x.mapDom(s0, rv.T, xt)
			d.init = func(st *State) { st.loopk["$done"] = Val{T: tConstArr(ds, tFalse)} }
			d.head = func(st *State, body, exit func(*State)) {
				dom := x.mapDom(st, rv.T, xt)
				done := st.loopk["$done"].T
				// exit
				ex := st.clone()
				if dom == dom0 {
					ex.assume(tEq(done, dom))
					exit(ex)
				} else {
					kb := mkBV(freshName("?k"), ks)
					ex.assume(mkQuant("forall", []QV{{kb.Op, ks}}, [][]*Term{{tSel(dom, kb)}, {tSel(done, kb)}}, tImp(tAnd(tSel(dom, kb), tSel(dom0, kb)), tSel(done, kb))))
					exit(ex)
				}
				key := mkConst(freshName("key"), ks)
				st.assume(tSel(dom, key))
				st.assume(tNot(tSel(done, key)))
				st.assume(tNot(tEq(rv.T, tInt(0))))
				// fewer visited than there are, unless something visited was removed
				w := mkConst(freshName("gone"), ks)
				st.assume(tOr(tAnd(tSel(done, w), tNot(tSel(dom, w))), tLt(st.loopk["$k"].T, tApp(cardFn(ks), dom))))
				st.assume(x.wfVal(key, kt, st.alloc, true))
				st.loopk["$key"] = Val{T: key, Ty: kt}
				bind(st, s.Key, Val{T: key, Ty: kt}, func(a *State) {
					if s.Value == nil {
						body(a)
						return
					}
					v := tSel(x.mapVals(a, rv.T, xt), key)
					bind(a, s.Value, x.loadWf(a, Val{T: v, Ty: vt}), body)
				})
			}
			d.auto = func(hs, entry *State) {
				done := hs.loopk["$done"].T
				dom := x.mapDom(hs, rv.T, xt)
				if dom == dom0 {
					kb := mkBV(freshName("?k"), ks)
					hs.assume(mkQuant("forall", []QV{{kb.Op, ks}}, [][]*Term{{tSel(done, kb)}}, tImp(tSel(done, kb), tSel(dom0, kb))))
				}
				hs.assume(tEq(tApp(cardFn(ks), done), hs.loopk["$k"].T))
				x.fins(hs, ks, done)
			}
			d.step = func(st *State) {
				st.loopk["$done"] = Val{T: tStore(st.loopk["$done"].T, st.loopk["$key"].T, tTrue)}
			}
		default:
			panic(unsup("range over " + typeKey(xt)))
		}
		x.runLoop(fr, s0, d, k, ctl)
	})
}

func constCtr(t *Term, seen map[*Term]bool) int {
	// largest !n suffix of constants in t
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := 0
	if len(t.Args) == 0 {
		if i := strings.LastIndexByte(t.Op, '!'); i >= 0 {
			if n, err := strconv.Atoi(t.Op[i+1:]); err == nil {
				m = n
			}
		}
	}
	for _, a := range t.Args {
		if c := constCtr(a, seen); c > m {
			m = c
		}
	}
	return m
}

func (x *X) isInvariant(t *Term, ctr int) bool { return constCtr(t, map[*Term]bool{}) <= ctr }

type slLoc struct {
	comp string
	ref  *Term
}

func (x *X) runLoop(fr *Frame, st *State, d *loopDef, k func(*State), ctl *Ctl) {
	key := x.loopKey(fr, d.node)
	ord := x.loopOrd[key]
	var spec *LoopSpec
	if x.con != nil {
		spec = x.con.Loops[ord]
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	outerK := map[string]Val{}
	for n, v := range st.loopk {
		outerK[n] = v
	}
	restore := func(s *State) {
		for n := range s.loopk {
			if _, ok := outerK[n]; !ok && (n == "$k" || n == "$done" || n == "$key") {
				delete(s.loopk, n)
			}
		}
		for _, n := range []string{"$k", "$done", "$key"} {
			if v, ok := outerK[n]; ok {
				s.loopk[n] = v
			}
		}
	}
	kOrd := fmt.Sprintf("$k%d", ord)
	dOrd := fmt.Sprintf("$done%d", ord)

	entry := st.clone()
	entry.loopk["$k"] = Val{T: tInt(0), Ty: types.Typ[types.Int]}
	delete(entry.loopk, "$done")
	if d.init != nil {
		d.init(entry)
	}
	setOrd := func(s *State) {
		s.loopk[kOrd] = s.loopk["$k"]
		if v, ok := s.loopk["$done"]; ok {
			s.loopk[dOrd] = v
		}
	}
	setOrd(entry)
	pos := d.node.Pos()
	// ghost initialisation
	for _, g := range spec.Init {
		sc := &SpecCtx{x: x, st: entry, old: x.entry, pre: entry, fr: fr, pos: pos, binds: map[string]Val{}}
		entry.gv[g.LHS.Name] = sc.eval(g.RHS)
	}
	entryAlloc := entry.alloc
	ctr0 := freshCtr

	di := x.disc[key]
	if di == nil {
		di = &discInfo{vars: map[*types.Var]bool{}, comps: map[string]bool{}, gvs: map[string]bool{}}
		x.disc[key] = di
	}

	type headInfo struct {
		hs       *State
		ctr      int
		linear   map[*types.Var]*big.Int
		slLocs   map[*types.Var]bool
		targets  map[string]*tgtInfo
		locSl    map[slLoc]bool
		backEdge []*State
	}
	// mkHead builds the havoced head state for the current guess.
	mkHead := func(lin map[*types.Var]*big.Int, slv map[*types.Var]bool, tg map[string]*tgtInfo, locs map[slLoc]bool) *State {
		hs := entry.clone()
		kc := mkConst(freshName("k"), "Int")
		hs.loopk["$k"] = Val{T: kc, Ty: types.Typ[types.Int]}
		hs.assume(tLe(tInt(0), kc))
		if v, ok := entry.loopk["$done"]; ok {
			hs.loopk["$done"] = Val{T: mkConst(freshName("done"), v.T.Sort)}
		}
		setOrd(hs)
		if di.alloc {
			x.newAlloc(hs)
		}
		var vs []*types.Var
		for v := range di.vars {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
		for _, v := range vs {
			cur, ok := entry.env[v]
			if !ok || cur.Loc {
				continue
			}
			if cur.Fn != nil {
				panic(unsup("function variable modified in a loop"))
			}
			if c, ok := lin[v]; ok {
				hs.env[v] = Val{T: tAdd(cur.T, tMul(tBig(c), kc)), Ty: cur.Ty}
				continue
			}
			n := mkConst(freshName("v."+v.Name()), cur.T.Sort)
			hs.env[v] = Val{T: n, Ty: cur.Ty}
			hs.assume(x.wfVal(n, v.Type(), hs.alloc, true))
			if slv[v] {
				a := tField("sl_arr", n)
				hs.assume(tOr(tEq(a, tField("sl_arr", cur.T)), tLe(entryAlloc, a)))
			}
		}
		for g := range di.gvs {
			cur := entry.gv[g]
			if cur.T == nil {
				continue
			}
			hs.gv[g] = Val{T: mkConst(freshName("gv."+g), cur.T.Sort), Ty: cur.Ty, Tup: cur.Tup}
		}
		var cs []string
		for c := range di.comps {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			ci := comps[c]
			cur := x.comp(entry, c)
			t := tg[c]
			if ci.Kind == "glob" {
				n := mkConst(freshName("H."+sanitize(c)), ci.Sort)
				hs.heap[c] = n
				hs.assume(x.wfVal(n, ci.Val, hs.alloc, true))
				hs.addLog(WEnt{Comp: c, Havoc: true, Inv: []*Term{tInt(0)}})
				continue
			}
			if t != nil && !t.wild && !t.fresh && len(t.inv) == 1 {
				_, vsrt := arrSorts(ci.Sort)
				n := mkConst(freshName("hv."+sanitize(c)), vsrt)
				hs.heap[c] = tStore(cur, t.inv[0], n)
				if ci.Kind == "field" || ci.Kind == "cell" {
					hs.assume(x.wfVal(n, ci.Val, hs.alloc, true))
					if locs[slLoc{c, t.inv[0]}] {
						a := tField("sl_arr", n)
						hs.assume(tOr(tEq(a, tField("sl_arr", tSel(cur, t.inv[0]))), tLe(entryAlloc, a)))
					}
				} else if ci.Kind == "elem" || ci.Kind == "mv" {
					ks, _ := arrSorts(vsrt)
					i := mkBV(freshName("?i"), ks)
					s := tSel(n, i)
					if w := x.wfVal(s, ci.Val, hs.alloc, false); w != tTrue {
						hs.assume(mkQuant("forall", []QV{{i.Op, ks}}, [][]*Term{{s}}, w))
					}
				}
				hs.addLog(WEnt{Comp: c, Havoc: true, Inv: t.inv})
				continue
			}
			n := mkConst(freshName("H."+sanitize(c)), ci.Sort)
			hs.heap[c] = n
			x.wfComp(c, n, hs.alloc)
			ent := WEnt{Comp: c, Havoc: true}
			if t == nil || t.wild {
				ent.Wild = true
			} else {
				hs.assume(frameAxiom(n, cur, t.inv, entryAlloc))
				ent.Inv = t.inv
				if t.fresh {
					ent.Since = entryAlloc
				}
				for _, r := range t.inv {
					if locs[slLoc{c, r}] {
						a := tField("sl_arr", tSel(n, r))
						hs.assume(tOr(tEq(a, tField("sl_arr", tSel(cur, r))), tLe(entryAlloc, a)))
					}
				}
			}
			hs.addLog(ent)
		}
		return hs
	}
	mkCtx := func(s *State) *SpecCtx {
		return &SpecCtx{x: x, st: s, old: x.entry, pre: entry, fr: fr, pos: pos, binds: map[string]Val{}, loopEnd: loopEnd(d.node)}
	}
	iterate := func(muted bool, hs *State, back, exit func(*State)) {
		pctl := ctl
		if muted {
			pctl = muteCtl(ctl)
		}
		d.head(hs, func(b *State) {
			fin := func(s *State) {
				d.post(s, func(s2 *State) {
					if d.step != nil {
						// restore this loop's ghosts (inner loops may have overwritten $k)
						d.step(s2)
					}
					kNow := s2.loopk["$k"].T
					s2.loopk["$k"] = Val{T: tAdd(kNow, tInt(1)), Ty: types.Typ[types.Int]}
					setOrd(s2)
					for _, g := range spec.Step {
						x.ghostSet(s2, g, mkCtx(s2))
					}
					back(s2)
				})
			}
			own := map[string]Val{"$k": b.loopk["$k"]}
			if v, ok := b.loopk["$done"]; ok {
				own["$done"] = v
			}
			if v, ok := b.loopk["$key"]; ok {
				own["$key"] = v
			}
			c := &Ctl{label: d.label, isLoop: true, parent: pctl,
				brk: func(s *State) {
					if muted {
						return
					}
					restore(s)
					k(s)
				},
				cont: func(s *State) { rst(s, own); fin(s) }}
			if !muted && x.dry == 0 && loopSmoke {
				x.smoke = append(x.smoke, &VC{Label: fmt.Sprintf("loop %d body is reachable", ord), Kind: "smoke-loop", Facts: b.factList(), Goal: tFalse, Smoke: true})
			}
			d.body(b, func(s *State) { rst(s, own); fin(s) }, c)
		}, exit)
	}
	nop := func(*State) {}

	// ---- discovery ----
	var lin map[*types.Var]*big.Int
	var slv map[*types.Var]bool
	var tg map[string]*tgtInfo
	var locs map[slLoc]bool
	x.dry++
	savedRet := fr.ret
	muted := x.muteReturns(fr)
	for round := 0; round < 12; round++ {
		hs := mkHead(nil, nil, nil, nil)
		head := hs.clone()
		ctrH := ctr0
		changed := false
		lin = map[*types.Var]*big.Int{}
		slv = map[*types.Var]bool{}
		bad := map[*types.Var]bool{}
		badSl := map[*types.Var]bool{}
		var backs []*State
		ctlSave := k
		_ = ctlSave
		iterate(true, hs, func(es *State) {
			backs = append(backs, es)
			for v, hv := range head.env {
				ev, ok := es.env[v]
				if !ok || hv.Loc {
					continue
				}
				if ev.T != hv.T || (ev.Fn != hv.Fn) {
					if !di.vars[v] {
						di.vars[v] = true
						changed = true
					}
					if ev.T != nil && ev.T.Sort == "Int" {
						b1, c1 := splitLin(ev.T)
						b0, c0 := splitLin(hv.T)
						if b1 == b0 && b1 != nil {
							c := new(big.Int).Sub(c1, c0)
							if p, ok := lin[v]; ok && p.Cmp(c) != 0 {
								bad[v] = true
							}
							lin[v] = c
						} else {
							bad[v] = true
						}
					} else {
						bad[v] = true
					}
				} else if di.vars[v] {
					bad[v] = true
				}
				if ev.T != nil && ev.T.Sort == "Slice" && di.vars[v] {
					for _, l := range iteLeaves(tField("sl_arr", ev.T)) {
						if !(l == tField("sl_arr", hv.T) || x.isFresh(l, entryAlloc)) {
							badSl[v] = true
						}
					}
					slv[v] = true
				}
			}
			for g, ev := range es.gv {
				if hv, ok := head.gv[g]; !ok || hv.T != ev.T {
					if !di.gvs[g] {
						di.gvs[g] = true
						changed = true
					}
				}
			}
			for c, et := range es.heap {
				if et != x.comp(head, c) && !di.comps[c] {
					di.comps[c] = true
					changed = true
				}
			}
			if es.alloc != head.alloc && !di.alloc {
				di.alloc = true
				changed = true
			}
		}, nop)
		if changed {
			continue
		}
		for v := range bad {
			delete(lin, v)
		}
		for v := range badSl {
			delete(slv, v)
		}
		// write targets
		tg = map[string]*tgtInfo{}
		locs = map[slLoc]bool{}
		badLoc := map[slLoc]bool{}
		arrOf := map[*Term]*Term{} // arr(head slice var) -> arr(entry value)
		for v := range slv {
			arrOf[tField("sl_arr", head.env[v].T)] = tField("sl_arr", entry.env[v].T)
		}
		// slice-valued field locations
		for _, es := range backs {
			for l := es.log; l != nil && l != head.log; l = l.Prev {
				ci := comps[l.Comp]
				if ci.Kind == "field" && !l.Havoc && l.Target != nil {
					if _, isSl := ci.Val.Underlying().(*types.Slice); isSl && x.isInvariant(l.Target, ctrH) {
						hv := tSel(x.comp(head, l.Comp), l.Target)
						ev := tSel(x.comp(es, l.Comp), l.Target)
						lc := slLoc{l.Comp, l.Target}
						locs[lc] = true
						for _, lf := range iteLeaves(tField("sl_arr", ev)) {
							if !(lf == tField("sl_arr", hv) || x.isFresh(lf, entryAlloc)) {
								badLoc[lc] = true
							}
						}
					}
				}
			}
		}
		for lc := range locs {
			if badLoc[lc] {
				delete(locs, lc)
				continue
			}
			arrOf[tField("sl_arr", tSel(x.comp(head, lc.comp), lc.ref))] = tField("sl_arr", tSel(x.comp(entry, lc.comp), lc.ref))
		}
		for c := range di.comps {
			tg[c] = &tgtInfo{}
		}
		for _, es := range backs {
			for l := es.log; l != nil && l != head.log; l = l.Prev {
				t := tg[l.Comp]
				if t == nil {
					t = &tgtInfo{}
					tg[l.Comp] = t
				}
				var ts []*Term
				if l.Havoc {
					if l.Wild {
						t.wild = true
					}
					ts = l.Inv
					if l.Since != nil {
						t.fresh = true
					}
				} else {
					ts = []*Term{l.Target}
				}
				for _, tt := range ts {
					for _, leaf := range iteLeaves(tt) {
						switch {
						case x.isFresh(leaf, entryAlloc):
							t.fresh = true
						case x.isInvariant(leaf, ctrH):
							t.addInv(leaf)
						case arrOf[leaf] != nil:
							t.fresh = true
							t.addInv(arrOf[leaf])
						default:
							t.wild = true
						}
					}
				}
			}
		}
		break
	}
	x.unmute(fr, savedRet, muted)
	x.dry--

	// ---- obligations ----
	if x.dry == 0 {
		for i, c := range spec.Inv {
			t := mkCtx(entry).eval(c.E).T
			x.emit(entry, fmt.Sprintf("loop %d invariant %d initially: %s", ord, i+1, clauseName(c)), "inv-init", pos, t)
			entry.assume(t)
		}
	}
	// where the written locations are not known, the function's frame condition is an invariant
	var wild []string
	if x.dry == 0 {
		for c, t := range tg {
			if t.wild && di.comps[c] && x.loopFrame(entry, c) != nil {
				wild = append(wild, c)
			}
		}
		sort.Strings(wild)
		for _, c := range wild {
			x.emit(entry, fmt.Sprintf("loop %d starts within the frame of %s", ord, c), "frame", pos, x.loopFrame(entry, c))
		}
	}
	hs := mkHead(lin, slv, tg, locs)
	for _, c := range wild {
		hs.assume(x.loopFrame(hs, c))
	}
	if d.auto != nil {
		d.auto(hs, entry)
	}
	x.autoCond(fr, hs, entry, d, lin, di, ctr0)
	if x.dry == 0 {
		for _, c := range spec.Inv {
			sc := mkCtx(hs)
			sc.assume = true
			hs.assume(sc.eval(c.E).T)
		}
	}
	var dec0 *Term
	if spec.Dec != nil && x.dry == 0 {
		dec0 = mkCtx(hs).eval(spec.Dec).T
	}
	back := func(es *State) {
		if x.dry > 0 {
			return
		}
		for _, a := range spec.Applies {
			x.applyLemma(es, mkCtx(es), a, pos)
		}
		for _, a := range spec.Asserts {
			t := mkCtx(es).eval(a.E).T
			x.oblige(es, fmt.Sprintf("loop %d assertion: %s", ord, clauseName(a)), "assert", pos, t)
		}
		for _, c := range wild {
			x.emit(es, fmt.Sprintf("loop %d keeps the frame of %s", ord, c), "frame", pos, x.loopFrame(es, c))
		}
		for i, c := range spec.Inv {
			t := mkCtx(es).eval(c.E).T
			x.emit(es, fmt.Sprintf("loop %d invariant %d preserved: %s", ord, i+1, clauseName(c)), "inv-pres", pos, t)
		}
		if dec0 != nil {
			d1 := mkCtx(es).eval(spec.Dec).T
			x.emit(es, fmt.Sprintf("loop %d measure decreases", ord), "termination", pos, tAnd(tLt(d1, dec0), tLe(tInt(0), dec0)))
		}
	}
	if spec.Dec == nil && x.dry == 0 {
		if _, isRange := d.node.(*ast.RangeStmt); !isRange && len(lin) == 0 {
			x.assumes["termination of "+x.name+" (loop "+strconv.Itoa(ord)+") is not proved (partial correctness)"] = true
		}
	}
	exit := func(s *State) { restore(s); k(s) }
	iterate(false, hs, back, exit)
}

// loopSmoke asks for a reachability query per loop body (a development aid: contradictory invariants).
var loopSmoke bool

func loopEnd(n ast.Stmt) token.Pos {
	switch s := n.(type) {
	case *ast.ForStmt:
		return s.Body.Lbrace
	case *ast.RangeStmt:
		return s.Body.Lbrace
	}
	return n.Pos()
}

func rst(s *State, own map[string]Val) {
	for n, v := range own {
		s.loopk[n] = v
	}
}

type tgtInfo struct {
	inv   []*Term
	fresh bool
	wild  bool
}

func (t *tgtInfo) addInv(r *Term) {
	for _, y := range t.inv {
		if y == r {
			return
		}
	}
	t.inv = append(t.inv, r)
}

// autoCond: for a loop "for ...; cond; post" whose condition only involves linear counters and
// loop-invariant terms, the condition held at the previous head unless this is the first iteration.
func (x *X) autoCond(fr *Frame, hs, entry *State, d *loopDef, lin map[*types.Var]*big.Int, di *discInfo, ctr0 int) {
	if d.condE == nil || !simpleExprNoHeap(fr.info, d.condE) || len(lin) == 0 {
		return
	}
	kc := hs.loopk["$k"].T
	ps := hs.clone()
	for v, c := range lin {
		if cur, ok := hs.env[v]; ok {
			ps.env[v] = Val{T: tSub(cur.T, tBig(c)), Ty: cur.Ty}
		}
	}
	var ct *Term
	x.dry++
	x.eval(fr, ps, d.condE, func(_ *State, v Val) { ct = v.T })
	x.dry--
	if ct == nil {
		return
	}
	// replace k by an invariant constant to check that everything else is invariant
	if !x.isInvariant(subst(ct, map[*Term]*Term{kc: tInt(0)}), ctr0) {
		return
	}
	hs.assume(tOr(tEq(kc, tInt(0)), ct))
}

func simpleExprNoHeap(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, isId := n.Fun.(*ast.Ident); isId && id.Name == "len" {
				return true
			}
			ok = false
		case *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.FuncLit, *ast.SliceExpr, *ast.CompositeLit:
			ok = false
		case *ast.BinaryExpr:
			if n.Op == token.LAND || n.Op == token.LOR {
				if !simpleExpr(info, n.Y) {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}

// During discovery runs, returns out of the enclosing frames and breaks are ignored.
func (x *X) muteReturns(fr *Frame) []func() {
	var undo []func()
	for f := fr; f != nil; f = f.parent {
		g := f
		old := g.ret
		g.ret = func(*State, []Val) {}
		undo = append(undo, func() { g.ret = old })
	}
	return undo
}

func (x *X) unmute(fr *Frame, saved func(*State, []Val), undo []func()) {
	for _, u := range undo {
		u()
	}
}

func muteCtl(c *Ctl) *Ctl {
	if c == nil {
		return nil
	}
	nop := func(*State) {}
	return &Ctl{label: c.label, isLoop: c.isLoop, brk: nop, cont: nop, parent: muteCtl(c.parent)}
}
