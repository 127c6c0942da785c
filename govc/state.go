package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Fact struct {
	T    *Term
	Prev *Fact
	N    int
}

type WEnt struct {
	Comp   string
	Target *Term   // single write
	Havoc  bool    // loop / call summary
	Inv    []*Term // invariant targets
	Since  *Term   // fresh since this alloc (nil: no fresh writes)
	Wild   bool
	Prev   *WEnt
	N      int
}

type State struct {
	env   map[*types.Var]Val
	heap  map[string]*Term
	gv    map[string]Val // ghost variables
	alloc *Term
	facts *Fact
	log   *WEnt
	loopk map[string]Val // $k, $done ... of enclosing loops
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[*types.Var]Val, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.gv = make(map[string]Val, len(s.gv))
	for k, v := range s.gv {
		n.gv[k] = v
	}
	n.loopk = make(map[string]Val, len(s.loopk))
	for k, v := range s.loopk {
		n.loopk[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == nil || t == tTrue {
		return
	}
	if t.Op == "and" && len(t.Vars) == 0 {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for f, i := s.facts, 0; f != nil && i < 400; f, i = f.Prev, i+1 {
		if f.T == t {
			return
		}
	}
	n := 1
	if s.facts != nil {
		n = s.facts.N + 1
	}
	s.facts = &Fact{t, s.facts, n}
}

func (s *State) knows(t *Term) bool {
	if t == tTrue {
		return true
	}
	for f := s.facts; f != nil; f = f.Prev {
		if f.T == t {
			return true
		}
	}
	return false
}

func (s *State) factList() []*Term {
	var out []*Term
	for f := s.facts; f != nil; f = f.Prev {
		out = append(out, f.T)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) addLog(e WEnt) {
	e.Prev = s.log
	e.N = 1
	if s.log != nil {
		e.N = s.log.N + 1
	}
	s.log = &e
}

// ---------- heap components ----------

type compInfo struct {
	Name string
	Sort string
	Kind string // field elem md mv cell glob ghost
	Key  types.Type
	Val  types.Type
}

var comps = map[string]*compInfo{}

func compField(st types.Type, f *types.Var) string {
	n := "f." + typeKey(st) + "." + f.Name()
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", sortOf(f.Type())), "field", nil, f.Type()}
	}
	return n
}
func compElem(t types.Type) string {
	n := "e." + typeKey(t)
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", arrSort("Int", sortOf(t))), "elem", nil, t}
	}
	return n
}
func mapKV(t types.Type) (types.Type, types.Type) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}
func mapName(t types.Type) string {
	k, v := mapKV(t)
	return typeKey(k) + "." + typeKey(v.Underlying())
}
func mapElemKey(t types.Type) string {
	k, v := mapKV(t)
	vk := typeKey(v)
	if _, ok := v.Underlying().(*types.Map); ok {
		vk = typeKey(v.Underlying())
	}
	return typeKey(k) + ":" + vk
}
func compMD(t types.Type) string {
	k, _ := mapKV(t)
	n := "md." + mapElemKey(t)
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", arrSort(sortOf(k), "Bool")), "md", k, nil}
	}
	return n
}
func compMV(t types.Type) string {
	k, v := mapKV(t)
	n := "mv." + mapElemKey(t)
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", arrSort(sortOf(k), sortOf(v))), "mv", k, v}
	}
	return n
}
func compCell(t types.Type) string {
	n := "c." + typeKey(t)
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", sortOf(t)), "cell", nil, t}
	}
	return n
}
func compGlob(v *types.Var) string {
	n := "g." + v.Pkg().Name() + "." + v.Name()
	if comps[n] == nil {
		comps[n] = &compInfo{n, sortOf(v.Type()), "glob", nil, v.Type()}
	}
	return n
}
func compGhost(name, valSort string) string {
	n := "gh." + name
	if comps[n] == nil {
		comps[n] = &compInfo{n, arrSort("Int", valSort), "ghost", nil, nil}
	}
	return n
}

var typeIds = map[string]int{}
var typeIdTypes = map[string]types.Type{}

func typeId(t types.Type) *Term {
	k := typeKey(t)
	if _, ok := typeIds[k]; !ok {
		typeIds[k] = len(typeIds) + 1
		typeIdTypes[k] = t
	}
	return tInt(int64(typeIds[k]))
}

func tTypeof(r *Term) *Term { return tApp("typeof", r) }

// ---------- well-formedness of values ----------

func (x *X) wfVal(t *Term, ty types.Type, alloc *Term, rich bool) *Term {
	if ty == nil {
		return tTrue
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return tLe(tInt(0), t)
		}
		return tTrue
	case *types.Pointer:
		c := tAnd(tLe(tInt(0), t), tLt(t, alloc))
		if n, ok := u.Elem().(*types.Named); ok && rich {
			if _, isS := n.Underlying().(*types.Struct); isS && !x.prog.isEmbedded(n) {
				c = tAnd(c, tOr(tEq(t, tInt(0)), tEq(tTypeof(t), typeId(ty))))
			}
		}
		return c
	case *types.Map, *types.Chan:
		return tAnd(tLe(tInt(0), t), tLt(t, alloc))
	case *types.Interface:
		if u.NumMethods() == 0 {
			return tLt(t, alloc)
		}
		c := tAnd(tLe(tInt(0), t), tLt(t, alloc))
		if n, ok := ty.(*types.Named); ok && rich && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), x.prog.Mod) {
			c = tAnd(c, tOr(tEq(t, tInt(0)), x.implPred(ty, t)))
		}
		return c
	case *types.Signature:
		return tTrue
	case *types.Slice:
		a, o, l, cp := tField("sl_arr", t), tField("sl_off", t), tField("sl_len", t), tField("sl_cap", t)
		return tAnd(tLe(tInt(0), a), tLt(a, alloc), tLe(tInt(0), o), tLe(tInt(0), l), tLe(l, cp), tImp(tEq(a, tInt(0)), tEq(cp, tInt(0))))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.wfVal(tField(structFieldSel(ty, i), t), u.Field(i).Type(), alloc, rich))
		}
		return tAnd(cs...)
	}
	return tTrue
}

func (x *X) wfComp(name string, c *Term, alloc *Term) {
	ci := comps[name]
	switch ci.Kind {
	case "field", "cell":
		r := mkBV(freshName("?r"), "Int")
		s := tSel(c, r)
		if w := x.wfVal(s, ci.Val, alloc, false); w != tTrue {
			x.wf = append(x.wf, Axiom{"wf:" + name, mkQuant("forall", []QV{{r.Op, "Int"}}, [][]*Term{{s}}, w), "wf"})
		}
	case "elem", "mv":
		ks := "Int"
		if ci.Kind == "mv" {
			ks = sortOf(ci.Key)
		}
		r := mkBV(freshName("?r"), "Int")
		i := mkBV(freshName("?i"), ks)
		s := tSel(tSel(c, r), i)
		if w := x.wfVal(s, ci.Val, alloc, false); w != tTrue {
			x.wf = append(x.wf, Axiom{"wf:" + name, mkQuant("forall", []QV{{r.Op, "Int"}, {i.Op, ks}}, [][]*Term{{s}}, w), "wf"})
		}
	case "md":
		x.wf = append(x.wf, Axiom{"wf:" + name, tEq(tSel(c, tInt(0)), tConstArr(arrSort(sortOf(ci.Key), "Bool"), tFalse)), "wf"})
	}
}

func (x *X) base(name string) *Term {
	if t, ok := x.base0[name]; ok {
		return t
	}
	ci := comps[name]
	if ci == nil {
		panic(unsup("unknown heap component " + name))
	}
	t := mkConst("H0."+sanitize(name), ci.Sort)
	x.base0[name] = t
	x.wfComp(name, t, x.alloc0)
	if ci.Kind == "glob" {
		if w := x.wfVal(t, ci.Val, x.alloc0, true); w != tTrue {
			x.wf = append(x.wf, Axiom{"wf:" + name, w, "wf"})
		}
	}
	return t
}

func (x *X) comp(st *State, name string) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	return x.base(name)
}

// write target: comp[target] = val
func (x *X) write(st *State, comp string, target, val *Term) {
	x.noteWrite(comp)
	c := x.comp(st, comp)
	st.heap[comp] = tStore(c, target, val)
	st.addLog(WEnt{Comp: comp, Target: target})
}

func (x *X) noteWrite(comp string) {
	if x.hidden[comp] && !x.repOK {
		panic(unsup("write to component " + comp + " which is encapsulated by an abstract view"))
	}
}

func (x *X) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = tAdd(st.alloc, tInt(1))
	return r
}

// isFresh: is target certainly allocated at or after alloc value `since`?
func (x *X) isFresh(target, since *Term) bool {
	if target.Op == "ite" {
		return x.isFresh(target.Args[1], since) && x.isFresh(target.Args[2], since)
	}
	bt, ct := splitLin(target)
	bs, cs := splitLin(since)
	if bt == nil || bs == nil {
		return false
	}
	it, ok1 := x.allocIdx[bt]
	is, ok2 := x.allocIdx[bs]
	if !ok1 || !ok2 {
		return false
	}
	if bt == bs {
		return ct.Cmp(cs) >= 0
	}
	if it <= is {
		return false
	}
	// later base consts are assumed >= everything allocated before on the same path
	return true
}

func (x *X) newAlloc(st *State) {
	n := mkConst(freshName("alloc"), "Int")
	x.allocIdx[n] = len(x.allocIdx) + 1
	st.assume(tLe(st.alloc, n))
	st.alloc = n
}

// ---------- maps ----------

func (x *X) mapDom(st *State, m *Term, ty types.Type) *Term {
	return tSel(x.comp(st, compMD(ty)), m)
}
func (x *X) mapVals(st *State, m *Term, ty types.Type) *Term {
	return tSel(x.comp(st, compMV(ty)), m)
}

func cardFn(keySort string) string {
	n := "card$" + sanitize(keySort)
	if _, ok := funTab[n]; !ok {
		ds := arrSort(keySort, "Bool")
		declFun(n, []string{ds}, "Int")
		d := mkBV("?d$"+n, ds)
		k := mkBV("?k$"+n, keySort)
		w := n + "$wit"
		declFun(w, []string{ds}, keySort)
		q := func(name string, vs []QV, p []*Term, b *Term) {
			builtinAx = append(builtinAx, Axiom{name, mkQuant("forall", vs, [][]*Term{p}, b), "definition"})
		}
		cd := tApp(n, d)
		// only finite sets have a cardinality; map domains are finite (see fins)
		f := n + "$fin"
		declFun(f, []string{ds}, "Bool")
		fd := tApp(f, d)
		q("card>=0", []QV{{d.Op, ds}}, []*Term{cd}, tImp(fd, tLe(tInt(0), cd)))
		sT := mk("store", ds, d, k, tTrue)
		q("card store true", []QV{{d.Op, ds}, {k.Op, keySort}}, []*Term{tApp(n, sT)}, tEq(tApp(n, sT), tIte(tSel(d, k), cd, tAdd(cd, tInt(1)))))
		sF := mk("store", ds, d, k, tFalse)
		q("card store false", []QV{{d.Op, ds}, {k.Op, keySort}}, []*Term{tApp(n, sF)}, tEq(tApp(n, sF), tIte(tSel(d, k), tSub(cd, tInt(1)), cd)))
		builtinAx = append(builtinAx, Axiom{"card empty", tEq(tApp(n, tConstArr(ds, tFalse)), tInt(0)), "definition"})
		for _, t := range []*Term{sT, sF} {
			q("finite store", []QV{{d.Op, ds}, {k.Op, keySort}}, []*Term{tApp(n, t)}, tEq(tApp(f, t), fd))
		}
		builtinAx = append(builtinAx, Axiom{"finite empty", tApp(f, tConstArr(ds, tFalse)), "definition"})
		// card 0 means empty
		q("card zero", []QV{{d.Op, ds}, {k.Op, keySort}}, []*Term{cd, mk("select", "Bool", d, k)}, tImp(tAnd(fd, tEq(cd, tInt(0))), tNot(tSel(d, k))))
		// positive card has a witness
		q("card witness", []QV{{d.Op, ds}}, []*Term{cd}, tImp(tLt(tInt(0), cd), tSel(d, tApp(w, d))))
	}
	return n
}

// fins assumes that a map domain (or the visited part of one) is finite
func (x *X) fins(st *State, ks string, d *Term) {
	n := cardFn(ks)
	if len(d.free) == 0 {
		st.assume(tApp(n+"$fin", d))
	}
}

var builtinAx []Axiom

func shiftFn(elemSort string) string {
	n := "shift$" + sanitize(elemSort)
	if _, ok := funTab[n]; !ok {
		as := arrSort("Int", elemSort)
		declFun(n, []string{as, "Int"}, as)
		a := mkBV("?a$"+n, as)
		o := mkBV("?o$"+n, "Int")
		i := mkBV("?i$"+n, "Int")
		l := tSel(tApp(n, a, o), i)
		builtinAx = append(builtinAx, Axiom{"shift", mkQuant("forall", []QV{{a.Op, as}, {o.Op, "Int"}, {i.Op, "Int"}}, [][]*Term{{l}}, tEq(l, tSel(a, tIdx(o, i)))), "definition"})
	}
	return n
}

func tShift(a, off *Term) *Term {
	if v, ok := intVal(off); ok && v.Sign() == 0 {
		return a
	}
	_, es := arrSorts(a.Sort)
	return tApp(shiftFn(es), a, off)
}

// catFn(base,pos,src,soff,n)[i] = pos<=i<pos+n ? src[soff+i-pos] : base[i]
func tCat(base, pos, src, soff, n *Term) *Term {
	_, es := arrSorts(base.Sort)
	name := "cat$" + sanitize(es)
	if _, ok := funTab[name]; !ok {
		as := base.Sort
		declFun(name, []string{as, "Int", as, "Int", "Int"}, as)
		b := mkBV("?b$"+name, as)
		p := mkBV("?p$"+name, "Int")
		s := mkBV("?s$"+name, as)
		o := mkBV("?o$"+name, "Int")
		m := mkBV("?n$"+name, "Int")
		i := mkBV("?i$"+name, "Int")
		l := tSel(tApp(name, b, p, s, o, m), i)
		builtinAx = append(builtinAx, Axiom{"cat", mkQuant("forall", []QV{{b.Op, as}, {p.Op, "Int"}, {s.Op, as}, {o.Op, "Int"}, {m.Op, "Int"}, {i.Op, "Int"}}, [][]*Term{{l}}, tEq(l, tIte(tAnd(tLe(p, i), tLt(i, tAdd(p, m))), tSel(s, tIdx(o, tSub(i, p))), tSel(b, i)))), "definition"})
	}
	return tApp(name, base, pos, src, soff, n)
}

// ---------- interfaces ----------

func (pr *Program) isEmbedded(n *types.Named) bool {
	for _, p := range pr.Pkgs {
		for _, nm := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(nm).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Embedded() && types.Identical(s.Field(i).Type(), n) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// implementers of a repo interface among the repo's named types (T or *T)
func (pr *Program) implementers(it types.Type) []types.Type {
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	var paths []string
	for p := range pr.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		p := pr.Pkgs[pp]
		for _, nm := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

func (x *X) implPred(it types.Type, r *Term) *Term {
	name := "impl$" + sanitize(typeKey(it))
	if _, ok := funTab[name]; !ok {
		declFun(name, []string{"Int"}, "Bool")
	}
	key := name
	if !x.implDone[key] {
		x.implDone[key] = true
		impls := x.prog.implementers(it)
		is := map[string]bool{}
		for _, t := range impls {
			typeId(t)
			is[typeKey(t)] = true
			x.wf = append(x.wf, Axiom{"impl", tApp(name, typeId(t)), "wf"})
		}
		var ds []*Term
		v := mkBV(freshName("?t"), "Int")
		for _, t := range impls {
			ds = append(ds, tEq(v, typeId(t)))
		}
		x.wf = append(x.wf, Axiom{"impl-closed", mkQuant("forall", []QV{{v.Op, "Int"}}, [][]*Term{{tApp(name, v)}}, tImp(tApp(name, v), tOr(ds...))), "wf"})
	}
	return tApp(name, tTypeof(r))
}

type VC struct {
	Func  string
	Label string
	Kind  string
	Pos   string
	Facts []*Term
	Goal  *Term
	Ax    []Axiom
	// results
	Status  string // proved, failed, unknown
	Backend string
	Secs    float64
	Out     string
	Smoke   bool
	TO      int
	query   string
}

func (x *X) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.prog.Root+"/"), q.Line)
}
