package main

// Contract language: lexer, parser and AST for the specification files.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- expressions ----------

type SExpr struct {
	Op   string // "id","int","real","str","call","index","sel","un","bin","forall","exists","let","ite"
	Name string
	Args []*SExpr
	Vars []SVar
	Trig [][]*SExpr
	Src  string
}

type SVar struct {
	Name string
	Type string
}

type tok struct {
	k string // id int real str op eof
	s string
}

type lexer struct {
	toks []tok
	p    int
	src  string
}

var ops = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", "<", ">", "+", "-", "*", "/", "%", "!", ":", "=", "?"}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	r := []rune(s)
	for i < len(r) {
		c := r[i]
		if unicode.IsSpace(c) {
			i++
			continue
		}
		if unicode.IsLetter(c) || c == '_' || c == '$' {
			j := i + 1
			for j < len(r) && (unicode.IsLetter(r[j]) || unicode.IsDigit(r[j]) || r[j] == '_' || r[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(r[i:j])})
			i = j
			continue
		}
		if unicode.IsDigit(c) {
			j := i + 1
			kind := "int"
			for j < len(r) && (unicode.IsDigit(r[j]) || (r[j] == '.' && j+1 < len(r) && unicode.IsDigit(r[j+1]))) {
				if r[j] == '.' {
					kind = "real"
				}
				j++
			}
			out = append(out, tok{kind, string(r[i:j])})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(r) && r[j] != '"' {
				j++
			}
			out = append(out, tok{"str", string(r[i+1 : j])})
			i = j + 1
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(string(r[i:]), o) {
				out = append(out, tok{"op", o})
				i += len([]rune(o))
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("bad character %q in %q", c, s)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

func ParseSExpr(s string) (e *SExpr, err error) {
	t, err := lex(s)
	if err != nil {
		return nil, err
	}
	l := &lexer{toks: t, src: s}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	e = l.expr()
	if l.peek().k != "eof" {
		panic("trailing " + l.peek().s)
	}
	e.Src = s
	return e, nil
}

func (l *lexer) peek() tok { return l.toks[l.p] }
func (l *lexer) next() tok { t := l.toks[l.p]; l.p++; return t }
func (l *lexer) isOp(s string) bool {
	t := l.peek()
	return t.k == "op" && t.s == s
}
func (l *lexer) accept(s string) bool {
	if l.isOp(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		panic("expected " + s + " got " + l.peek().s)
	}
}

func (l *lexer) expr() *SExpr {
	t := l.peek()
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		l.next()
		var vs []SVar
		for {
			n := l.next().s
			ty := l.typeName()
			vs = append(vs, SVar{n, ty})
			if !l.accept(",") {
				break
			}
		}
		l.expect("::")
		var trig [][]*SExpr
		for l.accept("{") {
			var tr []*SExpr
			for {
				tr = append(tr, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			trig = append(trig, tr)
		}
		b := l.expr()
		return &SExpr{Op: t.s, Vars: vs, Trig: trig, Args: []*SExpr{b}}
	}
	if t.k == "id" && t.s == "let" {
		l.next()
		n := l.next().s
		l.expect("=")
		v := l.expr()
		l.expect("::")
		b := l.expr()
		return &SExpr{Op: "let", Name: n, Args: []*SExpr{v, b}}
	}
	return l.iff()
}

// typeName: identifier possibly with * prefix, [] prefix, pkg qualifier, or map[..].. for ghost arrays
func (l *lexer) typeName() string {
	s := ""
	for {
		if l.accept("*") {
			s += "*"
			continue
		}
		if t := l.peek(); t.k == "id" && t.s == "map" {
			l.next()
			l.expect("[")
			k := l.typeName()
			l.expect("]")
			return s + "map[" + k + "]" + l.typeName()
		}
		if l.isOp("[") {
			l.next()
			if l.accept("]") {
				s += "[]"
				continue
			}
			k := l.typeName()
			l.expect("]")
			v := l.typeName()
			return s + "[" + k + "]" + v
		}
		break
	}
	s += l.next().s
	for l.accept(".") {
		s += "." + l.next().s
	}
	return s
}

func (l *lexer) iff() *SExpr {
	e := l.imp()
	for l.accept("<==>") {
		r := l.imp()
		e = &SExpr{Op: "bin", Name: "<==>", Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) imp() *SExpr {
	e := l.or()
	if l.accept("==>") {
		var r *SExpr
		if t := l.peek(); t.k == "id" && (t.s == "forall" || t.s == "exists" || t.s == "let") {
			r = l.expr()
		} else {
			r = l.imp()
		}
		return &SExpr{Op: "bin", Name: "==>", Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) or() *SExpr {
	e := l.and()
	for l.accept("||") {
		r := l.and()
		e = &SExpr{Op: "bin", Name: "||", Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) and() *SExpr {
	e := l.cmp()
	for l.accept("&&") {
		var r *SExpr
		if t := l.peek(); t.k == "id" && (t.s == "forall" || t.s == "exists" || t.s == "let") {
			r = l.expr()
		} else {
			r = l.cmp()
		}
		e = &SExpr{Op: "bin", Name: "&&", Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) cmp() *SExpr {
	e := l.add()
	var res *SExpr
	for {
		t := l.peek()
		if t.k == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			l.next()
			r := l.add()
			c := &SExpr{Op: "bin", Name: t.s, Args: []*SExpr{e, r}}
			if res == nil {
				res = c
			} else {
				res = &SExpr{Op: "bin", Name: "&&", Args: []*SExpr{res, c}}
			}
			e = r
			continue
		}
		if t.k == "id" && t.s == "in" {
			l.next()
			r := l.add()
			c := &SExpr{Op: "call", Name: "in", Args: []*SExpr{e, r}}
			if res == nil {
				res = c
			} else {
				res = &SExpr{Op: "bin", Name: "&&", Args: []*SExpr{res, c}}
			}
			e = r
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return e
}
func (l *lexer) add() *SExpr {
	e := l.mul()
	for l.isOp("+") || l.isOp("-") {
		o := l.next().s
		r := l.mul()
		e = &SExpr{Op: "bin", Name: o, Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) mul() *SExpr {
	e := l.unary()
	for l.isOp("*") || l.isOp("/") || l.isOp("%") {
		o := l.next().s
		r := l.unary()
		e = &SExpr{Op: "bin", Name: o, Args: []*SExpr{e, r}}
	}
	return e
}
func (l *lexer) unary() *SExpr {
	if l.accept("!") {
		return &SExpr{Op: "un", Name: "!", Args: []*SExpr{l.unary()}}
	}
	if l.accept("-") {
		return &SExpr{Op: "un", Name: "-", Args: []*SExpr{l.unary()}}
	}
	return l.postfix()
}
func (l *lexer) postfix() *SExpr {
	var e *SExpr
	t := l.next()
	switch t.k {
	case "id":
		e = &SExpr{Op: "id", Name: t.s}
	case "int":
		e = &SExpr{Op: "int", Name: t.s}
	case "real":
		e = &SExpr{Op: "real", Name: t.s}
	case "str":
		e = &SExpr{Op: "str", Name: t.s}
	case "op":
		if t.s == "(" {
			e = l.expr()
			l.expect(")")
		} else {
			panic("unexpected " + t.s)
		}
	default:
		panic("unexpected end")
	}
	for {
		if l.accept("(") {
			var args []*SExpr
			if !l.accept(")") {
				for {
					args = append(args, l.expr())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			if e.Op != "id" {
				panic("call of non-identifier")
			}
			e = &SExpr{Op: "call", Name: e.Name, Args: args}
			continue
		}
		if l.accept("[") {
			i := l.expr()
			l.expect("]")
			e = &SExpr{Op: "index", Args: []*SExpr{e, i}}
			continue
		}
		if l.accept(".") {
			n := l.next().s
			e = &SExpr{Op: "sel", Name: n, Args: []*SExpr{e}}
			continue
		}
		break
	}
	return e
}

// ---------- declarations ----------

type Clause struct {
	Label string
	E     *SExpr
	Src   string
	More  bool // a postcondition only callers that reveal it use
}

type LoopSpec struct {
	Inv     []Clause
	Dec     *SExpr
	Assigns []*SExpr // hints: extra targets (unused)
	Asserts []Clause // lemma-style assertions proved at the end of the body before the invariants
	Init    []GhostSet
	Step    []GhostSet
	Unroll  bool
	Applies []*SExpr
}

type GhostSet struct {
	LHS, RHS *SExpr
}

type Contract struct {
	Key          string // "spn.Sum.Value"
	Pkg          string
	Params       []string // positional names, receiver first
	Results      []string
	Requires     []Clause
	Ensures      []Clause
	Modifies     []*SExpr
	Allocs       []string
	Uses         []string
	Loops        map[int]*LoopSpec
	Ghost        []GhostSet
	GVars        []SVar // ghost variables
	Trusted      string // reason, when assumed without proof
	Pure         bool
	Inline       bool
	NoPanic      bool
	Fields       map[string]bool
	Impl         string // for concrete methods: the interface method whose contract is to be satisfied
	Rep          []string
	Asserts      []Clause // asserted at exit before ensures
	File         string
	NoTerm       bool
	Lets         []GhostSet
	Props        []string
	Timeout      int
	Dec          *SExpr
	Like         string
	Applies      []*SExpr
	RepOK        bool
	NoSmoke      bool
	Without      map[string]bool // theories whose own axioms are left out
	CallAsserts  map[string][]Clause
	AfterAsserts map[string][]Clause
	Reveal       map[string]bool
	CallApplies  map[string][]*SExpr
	AfterApplies map[string][]*SExpr
	CallUpd      map[string][]GhostSet
	Iface        bool
	Impls        []string
	Synthetic    bool
	NoLike       string
	linked       bool
}

type FunDecl struct {
	Name   string
	Params []SVar
	Ret    string
	Body   *SExpr   // def macro
	Axioms []Clause // definitional axioms / assumptions
	Opaque bool     // the axioms are used in the proofs of the theory's own lemmas only
	State  bool
	Foot   []string
	Kind   string // fun def state
	Theory string
}

var lemSeq int

type Lemma struct {
	Seq     int // lemmas may only use earlier lemmas, or themselves for a smaller argument
	Name    string
	Params  []SVar
	Req     []Clause
	Ens     []Clause
	Induct  string
	Uses    []string
	Theory  string
	Trig    []*SExpr
	NoAuto  bool
	Bounded string
	Applies []*SExpr
}

type Theory struct {
	Name    string
	Uses    []string
	Funs    []*FunDecl
	Axioms  []Clause
	AxKind  []string // "definition" or "assumption"
	Lemmas  []*Lemma
	Smt     []string
	Trusted []string
}

type TypeSpec struct {
	Key    string // "common.Queue"
	Ghost  []SVar
	Rep    *SExpr // with self named q
	Self   string
	Zero   map[string]*SExpr
	Hidden []string
}

type GlobalInv struct {
	Pkg  string
	E    *SExpr
	Src  string
	Init string
}

type Specs struct {
	Contracts map[string]*Contract
	Theories  map[string]*Theory
	Types     map[string]*TypeSpec
	Globals   []GlobalInv
	Defs      map[string]*FunDecl
	Impls     []Impl
	Props     map[string]*PropDecl
	GhostHeap map[string]string // ghost heap comp name -> type
}

type Impl struct {
	Iface, Method string
	Types         []string
	Uses          []string
}

type PropDecl struct {
	ID     string
	Funcs  []string
	Lemmas []string
}

func newSpecs() *Specs {
	return &Specs{Contracts: map[string]*Contract{}, Theories: map[string]*Theory{}, Types: map[string]*TypeSpec{}, Defs: map[string]*FunDecl{}, Props: map[string]*PropDecl{}, GhostHeap: map[string]string{}}
}

func LoadSpecs(dir string) (*Specs, error) {
	sp := newSpecs()
	fs, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := sp.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return sp, nil
}

// logical lines: a line starting with whitespace deeper ("  | ...") continues the previous one when it begins with "|" after trimming.
func logicalLines(src string) []string {
	var out []string
	for _, ln := range strings.Split(src, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "| ") && len(out) > 0 {
			out[len(out)-1] += " " + t[2:]
			continue
		}
		out = append(out, t)
	}
	return out
}

func splitWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i+1:])
}

func parseClause(s string) (Clause, error) {
	lab := ""
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "@") {
		lab, s = splitWord(s[1:])
	}
	e, err := ParseSExpr(s)
	return Clause{lab, e, s, false}, err
}

func parseParams(s string) []SVar {
	s = strings.TrimSpace(s)
	s = strings.TrimPrefix(s, "(")
	s = strings.TrimSuffix(s, ")")
	var out []SVar
	depth := 0
	cur := ""
	var parts []string
	for _, c := range s {
		if c == '[' || c == '(' {
			depth++
		}
		if c == ']' || c == ')' {
			depth--
		}
		if c == ',' && depth == 0 {
			parts = append(parts, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	if strings.TrimSpace(cur) != "" {
		parts = append(parts, cur)
	}
	for _, p := range parts {
		n, t := splitWord(p)
		out = append(out, SVar{n, strings.TrimSpace(t)})
	}
	return out
}

// name(params) ret...
func parseSig(s string) (name string, params []SVar, rest string, err error) {
	i := strings.Index(s, "(")
	if i < 0 {
		return "", nil, "", fmt.Errorf("no ( in %q", s)
	}
	name = strings.TrimSpace(s[:i])
	depth := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			depth++
		} else if s[j] == ')' {
			depth--
			if depth == 0 {
				return name, parseParams(s[i : j+1]), strings.TrimSpace(s[j+1:]), nil
			}
		}
	}
	return "", nil, "", fmt.Errorf("unbalanced ( in %q", s)
}

func (sp *Specs) loadFile(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	pkg := ""
	var th *Theory
	var con *Contract
	var loop *LoopSpec
	var lem *Lemma
	var fd *FunDecl
	var ty *TypeSpec
	reset := func() { con, loop, lem, fd, ty = nil, nil, nil, nil, nil }
	for _, ln := range logicalLines(string(b)) {
		w, rest := splitWord(ln)
		fail := func(e error) error { return fmt.Errorf("%v (line %q)", e, ln) }
		switch w {
		case "package":
			reset()
			pkg = rest
			th = nil
			continue
		case "theory":
			reset()
			th = &Theory{Name: rest}
			sp.Theories[rest] = th
			continue
		case "endtheory":
			reset()
			th = nil
			continue
		case "global":
			e, err := ParseSExpr(rest)
			if err != nil {
				return fail(err)
			}
			sp.Globals = append(sp.Globals, GlobalInv{Pkg: pkg, E: e, Src: rest})
			continue
		case "ghostheap":
			n, t := splitWord(rest)
			sp.GhostHeap[n] = t
			continue
		case "type":
			reset()
			ty = &TypeSpec{Key: pkg + "." + rest, Zero: map[string]*SExpr{}, Self: "self"}
			sp.Types[ty.Key] = ty
			continue
		case "property":
			reset()
			id, r := splitWord(rest)
			pd := sp.Props[id]
			if pd == nil {
				pd = &PropDecl{ID: id}
				sp.Props[id] = pd
			}
			for _, x := range strings.Fields(r) {
				if strings.HasPrefix(x, "lemma:") {
					pd.Lemmas = append(pd.Lemmas, x[6:])
				} else {
					pd.Funcs = append(pd.Funcs, x)
				}
			}
			continue
		case "implements":
			// implements spn.SPN.Value by spn.Sum spn.Product
			reset()
			a, r := splitWord(rest)
			_, r = splitWord(r)
			i := strings.LastIndex(a, ".")
			sp.Impls = append(sp.Impls, Impl{Iface: a[:i], Method: a[i+1:], Types: strings.Fields(r)})
			continue
		case "fun", "def", "state", "rec", "staterec":
			reset()
			name, ps, r, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			fd = &FunDecl{Name: name, Params: ps, Kind: w}
			if th != nil {
				fd.Theory = th.Name
			}
			if w == "staterec" {
				fd.Kind = "rec"
				fd.State = true
			}
			if w == "rec" || w == "staterec" {
				i := strings.Index(r, "=")
				fd.Ret = strings.TrimSpace(r[:i])
				e, err := ParseSExpr(r[i+1:])
				if err != nil {
					return fail(err)
				}
				fd.Body = e
				if th == nil {
					return fail(fmt.Errorf("%s outside theory", w))
				}
				th.Funs = append(th.Funs, fd)
				sp.Defs[name] = fd
			} else if w == "def" {
				i := strings.Index(r, "=")
				fd.Ret = strings.TrimSpace(r[:i])
				e, err := ParseSExpr(r[i+1:])
				if err != nil {
					return fail(err)
				}
				fd.Body = e
				sp.Defs[name] = fd
			} else {
				fd.Ret = r
				if w == "state" {
					fd.State = true
				}
				if th == nil {
					return fail(fmt.Errorf("%s outside theory", w))
				}
				th.Funs = append(th.Funs, fd)
				sp.Defs[name] = fd
			}
			continue
		case "lemma":
			reset()
			name, ps, r, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			lem = &Lemma{Name: name, Params: ps}
			if th == nil {
				return fail(fmt.Errorf("lemma outside theory"))
			}
			lem.Theory = th.Name
			lemSeq++
			lem.Seq = lemSeq
			th.Lemmas = append(th.Lemmas, lem)
			if strings.HasPrefix(r, "induct ") {
				lem.Induct = strings.TrimSpace(r[7:])
			}
			continue
		case "func":
			reset()
			name, ps, r, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			con = &Contract{Key: pkg + "." + name, Pkg: pkg, Loops: map[int]*LoopSpec{}, File: f, NoPanic: true}
			for _, p := range ps {
				con.Params = append(con.Params, p.Name)
			}
			if r != "" {
				for _, p := range parseParams(r) {
					con.Results = append(con.Results, p.Name)
				}
			}
			sp.Contracts[con.Key] = con
			continue
		}
		// sub-clauses
		if fd != nil {
			switch w {
			case "axiom":
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				fd.Axioms = append(fd.Axioms, c)
				continue
			case "opaque":
				fd.Opaque = true
				continue
			case "footprint":
				for _, x := range strings.Split(rest, ",") {
					fd.Foot = append(fd.Foot, strings.TrimSpace(x))
				}
				continue
			}
		}
		if lem != nil {
			switch w {
			case "requires", "ensures":
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				if w == "requires" {
					lem.Req = append(lem.Req, c)
				} else {
					lem.Ens = append(lem.Ens, c)
				}
				continue
			case "trigger":
				t, err := ParseSExpr("trig(" + rest + ")")
				if err != nil {
					return fail(err)
				}
				lem.Trig = t.Args
				continue
			case "noauto":
				lem.NoAuto = true
				continue
			case "apply":
				e, err := ParseSExpr(rest)
				if err != nil {
					return fail(err)
				}
				lem.Applies = append(lem.Applies, e)
				continue
			case "uses":
				lem.Uses = append(lem.Uses, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
				continue
			}
		}
		if ty != nil {
			switch w {
			case "ghost":
				n, t := splitWord(rest)
				ty.Ghost = append(ty.Ghost, SVar{n, t})
				continue
			case "rep":
				e, err := ParseSExpr(rest)
				if err != nil {
					return fail(err)
				}
				ty.Rep = e
				continue
			case "hidden":
				for _, x := range strings.Split(rest, ",") {
					ty.Hidden = append(ty.Hidden, strings.TrimSpace(x))
				}
				continue
			case "zero":
				i := strings.Index(rest, "=")
				e, err := ParseSExpr(rest[i+1:])
				if err != nil {
					return fail(err)
				}
				ty.Zero[strings.TrimSpace(rest[:i])] = e
				continue
			}
		}
		if con == nil && lem == nil && fd == nil && th != nil || (th != nil && (w == "assume" || w == "uses" || w == "smt" || w == "trust")) {
			switch w {
			case "uses":
				th.Uses = append(th.Uses, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
				continue
			case "axiom", "assume":
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				th.Axioms = append(th.Axioms, c)
				k := "definition"
				if w == "assume" {
					k = "assumption"
				}
				th.AxKind = append(th.AxKind, k)
				continue
			case "smt":
				th.Smt = append(th.Smt, rest)
				continue
			case "trust":
				th.Trusted = append(th.Trusted, rest)
				continue
			}
		}
		if con != nil {
			switch w {
			case "requires":
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				con.Requires = append(con.Requires, c)
				continue
			case "ensures", "ensures+":
				// ensures+: assumed by callers only where they say reveal <key>
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				c.More = w == "ensures+"
				con.Ensures = append(con.Ensures, c)
				continue
			case "assert":
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				if loop != nil {
					loop.Asserts = append(loop.Asserts, c)
				} else {
					con.Asserts = append(con.Asserts, c)
				}
				continue
			case "reveal":
				if con.Reveal == nil {
					con.Reveal = map[string]bool{}
				}
				for _, t := range strings.Fields(rest) {
					con.Reveal[t] = true
				}
				continue
			case "afterassert":
				// afterassert <calleekey> expr : asserted (and then assumed) after each call of callee
				k, r := splitWord(rest)
				c, err := parseClause(r)
				if err != nil {
					return fail(err)
				}
				if con.AfterAsserts == nil {
					con.AfterAsserts = map[string][]Clause{}
				}
				con.AfterAsserts[k] = append(con.AfterAsserts[k], c)
				continue
			case "callassert":
				// callassert <calleekey> expr : asserted (and then assumed) before each call of callee
				k, r := splitWord(rest)
				c, err := parseClause(r)
				if err != nil {
					return fail(err)
				}
				if con.CallAsserts == nil {
					con.CallAsserts = map[string][]Clause{}
				}
				con.CallAsserts[k] = append(con.CallAsserts[k], c)
				continue
			case "callapply":
				// callapply <calleekey> lemma(args) : applied before each call of callee
				k, r := splitWord(rest)
				e, err := ParseSExpr(r)
				if err != nil {
					return fail(err)
				}
				if con.CallApplies == nil {
					con.CallApplies = map[string][]*SExpr{}
				}
				con.CallApplies[k] = append(con.CallApplies[k], e)
				continue
			case "afterapply":
				// callapply <calleekey> lemma(args) : applied before each call of callee
				k, r := splitWord(rest)
				e, err := ParseSExpr(r)
				if err != nil {
					return fail(err)
				}
				if con.AfterApplies == nil {
					con.AfterApplies = map[string][]*SExpr{}
				}
				con.AfterApplies[k] = append(con.AfterApplies[k], e)
				continue
			case "aftercall":
				// aftercall <calleekey> ghostvar = expr
				k, r := splitWord(rest)
				i := strings.Index(r, " = ")
				l, err := ParseSExpr(r[:i])
				if err != nil {
					return fail(err)
				}
				e, err := ParseSExpr(r[i+3:])
				if err != nil {
					return fail(err)
				}
				if con.CallUpd == nil {
					con.CallUpd = map[string][]GhostSet{}
				}
				con.CallUpd[k] = append(con.CallUpd[k], GhostSet{l, e})
				continue
			case "modifies":
				if rest == "nothing" {
					continue
				}
				t, err := ParseSExpr("m(" + rest + ")")
				if err != nil {
					return fail(err)
				}
				con.Modifies = append(con.Modifies, t.Args...)
				continue
			case "allocs":
				for _, x := range strings.Split(rest, ",") {
					con.Allocs = append(con.Allocs, strings.TrimSpace(x))
				}
				continue
			case "uses":
				con.Uses = append(con.Uses, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
				continue
			case "trusted":
				con.Trusted = rest
				if rest == "" {
					con.Trusted = "assumed"
				}
				continue
			case "pure":
				con.Pure = true
				continue
			case "inline":
				con.Inline = true
				continue
			case "mayPanic":
				con.NoPanic = false
				continue
			case "timeout":
				fmt.Sscanf(rest, "%d", &con.Timeout)
				continue
			case "ghostvar":
				n, t := splitWord(rest)
				con.GVars = append(con.GVars, SVar{n, t})
				continue
			case "ghost", "init", "step":
				i := strings.Index(rest, " = ")
				if i < 0 {
					return fail(fmt.Errorf("ghost needs ' = '"))
				}
				l, err := ParseSExpr(rest[:i])
				if err != nil {
					return fail(err)
				}
				r, err := ParseSExpr(rest[i+3:])
				if err != nil {
					return fail(err)
				}
				switch {
				case w == "ghost" && loop != nil:
					loop.Step = append(loop.Step, GhostSet{l, r})
				case w == "ghost":
					con.Ghost = append(con.Ghost, GhostSet{l, r})
				case w == "init":
					loop.Init = append(loop.Init, GhostSet{l, r})
				default:
					loop.Step = append(loop.Step, GhostSet{l, r})
				}
				continue
			case "loop":
				var n int
				fmt.Sscanf(rest, "%d", &n)
				loop = &LoopSpec{}
				con.Loops[n] = loop
				continue
			case "endloop":
				loop = nil
				continue
			case "unroll":
				loop.Unroll = true
				continue
			case "invariant":
				if loop == nil {
					return fail(fmt.Errorf("invariant outside loop"))
				}
				c, err := parseClause(rest)
				if err != nil {
					return fail(err)
				}
				loop.Inv = append(loop.Inv, c)
				continue
			case "decreases":
				e, err := ParseSExpr(rest)
				if err != nil {
					return fail(err)
				}
				if loop != nil {
					loop.Dec = e
				} else {
					con.Dec = e
				}
				continue
			case "like":
				con.Like = rest
				continue
			case "nolike":
				con.NoLike = rest
				continue
			case "nosmoke":
				con.NoSmoke = true
				continue
			case "without":
				if con.Without == nil {
					con.Without = map[string]bool{}
				}
				for _, t := range strings.Fields(rest) {
					con.Without[t] = true
				}
				continue
			case "repmethod":
				con.RepOK = true
				continue
			case "apply":
				e, err := ParseSExpr(rest)
				if err != nil {
					return fail(err)
				}
				if loop != nil {
					loop.Applies = append(loop.Applies, e)
				} else {
					con.Applies = append(con.Applies, e)
				}
				continue
			}
		}
		return fail(fmt.Errorf("unexpected clause %q", w))
	}
	return nil
}
