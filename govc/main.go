package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

type outVC struct {
	Func, Label, Kind, Pos, Status, Backend, Out string
	Secs                                         float64
}

type outFn struct {
	Key       string
	Pos       string
	Err       string
	N, Proved int
	Secs      float64
	Inlined   []string
	Deps      []string
	Theories  []string
}

type output struct {
	Property  string
	Functions []outFn
	Lemmas    []outFn
	VCs       []outVC
	Failed    []outVC
	Errors    []string
	Trusted   map[string]string
	Axioms    []string
	Assumes   []string
	External  []string
	Backends  map[string]int
	SolverS   float64
	WallS     float64
	Smoke     int
	Vacuous   []string
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	specd := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property to check")
	fn := flag.String("func", "", "function (or lemma:NAME) to check, for development")
	outf := flag.String("out", "", "JSON output")
	verbose := flag.Bool("v", false, "verbose")
	fast := flag.Bool("fast", false, "little time per obligation, no retries")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "dump failing queries to this directory")
	flag.BoolVar(&loopSmoke, "loopsmoke", false, "query the reachability of loop bodies")
	list := flag.Bool("list", false, "list")
	flag.Parse()
	t0 := time.Now()
	sp, err := LoadSpecs(*specd)
	if err != nil {
		fmt.Fprintln(os.Stderr, "spec error:", err)
		os.Exit(3)
	}
	pr, err := LoadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load error:", err)
		os.Exit(3)
	}
	pr.LoadStubs(*specd + "/stubs")
	if err := linkInterfaces(pr, sp); err != nil {
		fmt.Fprintln(os.Stderr, "spec error:", err)
		os.Exit(3)
	}
	if *list {
		var ks []string
		for k := range sp.Contracts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	var funcs, lemmas, zeros []string
	if *prop != "" {
		pd := sp.Props[*prop]
		if pd == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(3)
		}
		funcs, lemmas = pd.Funcs, pd.Lemmas
	} else {
		for _, f := range strings.Split(*fn, ",") {
			if strings.HasPrefix(f, "lemma:") {
				lemmas = append(lemmas, f[6:])
			} else if f != "" {
				funcs = append(funcs, f)
			}
		}
	}
	// expand interface contracts
	var work []string
	seen := map[string]bool{}
	var addF func(k string)
	addF = func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		if strings.HasPrefix(k, "rep:") {
			zeros = append(zeros, k[4:])
			return
		}
		if c := sp.Contracts[k]; c != nil && c.Iface {
			for _, i := range c.Impls {
				addF(i)
			}
			return
		}
		work = append(work, k)
	}
	for _, f := range funcs {
		addF(f)
	}
	out := &output{Property: *prop, Trusted: map[string]string{}, Backends: map[string]int{}}
	assumes, ext, theories, lemUsed := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var results []*Result
	var all, smoke []*VC
	collect := func(r *Result) {
		results = append(results, r)
		all = append(all, r.VCs...)
		smoke = append(smoke, r.Smoke...)
		for k, v := range r.Trusted {
			out.Trusted[k] = v
		}
		for k := range r.Assumes {
			assumes[k] = true
		}
		for k := range r.Ext {
			ext[k] = true
		}
		for _, k := range r.Theories {
			theories[k] = true
		}
		for k := range r.LemUsed {
			lemUsed[k] = true
		}
		if r.Err != "" {
			out.Errors = append(out.Errors, r.Key+": "+r.Err)
		}
	}
	isLemma := map[string]bool{}
	for i := 0; i < len(work); i++ {
		k := work[i]
		c := sp.Contracts[k]
		if c != nil && c.Trusted != "" {
			out.Trusted[k] = c.Trusted
			continue
		}
		r := verifyFunc(pr, sp, k)
		collect(r)
		if *prop != "" {
			// callees are used through their contracts: discharge those too
			ds := keysOf(r.Deps)
			for _, d := range ds {
				addF(d)
				if dc := sp.Contracts[d]; dc != nil {
					for _, kk := range append([]string{d}, dc.Impls...) {
						if kc := sp.Contracts[kk]; kc != nil && kc.RepOK {
							if j := strings.LastIndex(kk, "."); j > 0 {
								addF("rep:" + kk[:j])
							}
						}
					}
				}
			}
		}
	}
	if len(sp.Globals) > 0 && *prop != "" {
		collect(verifyGlobals(pr, sp))
	}
	for _, z := range zeros {
		collect(verifyZeroRep(pr, sp, z))
	}
	// lemmas of every theory used
	lq := map[string]bool{}
	var addL func(n string)
	addL = func(n string) {
		if lq[n] {
			return
		}
		lq[n] = true
		r := verifyLemma(pr, sp, n)
		isLemma[r.Key] = true
		collect(r)
	}
	for _, l := range lemmas {
		addL(l)
	}
	for ch := true; ch; {
		ch = false
		var ths []string
		for t := range theories {
			ths = append(ths, t)
		}
		sort.Strings(ths)
		for _, t := range ths {
			for _, l := range sp.Theories[t].Lemmas {
				if !lq[l.Name] && (!l.NoAuto || lemUsed[l.Name]) {
					addL(l.Name)
					ch = true
				}
			}
		}
	}
	axioms := map[string]bool{}
	for t := range theories {
		th := sp.Theories[t]
		for i, a := range th.Axioms {
			if th.AxKind[i] == "assumption" {
				axioms[t+": "+clauseName(a)] = true
			}
		}
	}
	rounds := []int{2, 8, 25}
	budget := 420 * time.Second
	if *tier == "thorough" {
		rounds = []int{2, 10, 60}
		budget = 2400 * time.Second
	}
	retry := 75
	if *fast {
		// the outcome is known already: only name the failed obligations
		rounds, retry, budget = []int{2, 8}, 0, 120*time.Second
	}
	gen := time.Since(t0).Seconds()
	solveAll(append(append([]*VC{}, all...), smoke...), runtime.NumCPU(), rounds, retry, budget, *verbose)
	for _, r := range results {
		f := outFn{Key: r.Key, Pos: r.Pos, Err: r.Err, Inlined: keysOf(r.Inlined), Deps: keysOf(r.Deps), Theories: r.Theories}
		for i, vc := range r.VCs {
			f.N++
			f.Secs += vc.Secs
			o := outVC{vc.Func, vc.Label, vc.Kind, vc.Pos, vc.Status, vc.Backend, vc.Out, vc.Secs}
			if vc.Status == "proved" {
				f.Proved++
				out.Backends[vc.Backend]++
				o.Out = ""
			} else {
				out.Failed = append(out.Failed, o)
				if *dump != "" {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", *dump, sanitize(vc.Func), i), []byte("; "+vc.Label+"\n"+vc.query+"(check-sat)\n"), 0644)
				}
			}
			out.VCs = append(out.VCs, o)
			out.SolverS += vc.Secs
		}
		// vacuity
		exits, okExits := 0, 0
		lv := map[string]bool{}
		for _, s := range r.Smoke {
			out.Smoke++
			if s.Kind == "smoke-entry" && s.Status == "vacuous" {
				out.Vacuous = append(out.Vacuous, r.Key+": "+s.Label)
			}
			if s.Kind == "smoke-loop" {
				lv[s.Label] = lv[s.Label] || s.Status == "ok"
				if s.Status != "ok" && *dump != "" {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s_%s.smt2", *dump, sanitize(s.Func), sanitize(s.Label)), []byte("; "+s.Label+"\n"+s.query+"(check-sat)\n"), 0644)
				}
			}
			if s.Kind == "smoke-exit" {
				exits++
				if s.Status == "ok" {
					okExits++
				}
			}
		}
		for l, ok := range lv {
			if !ok {
				out.Vacuous = append(out.Vacuous, r.Key+": not so: "+l)
			}
		}
		if exits > 0 && okExits == 0 {
			out.Vacuous = append(out.Vacuous, r.Key+": no exit path is reachable")
		}
		if isLemma[r.Key] {
			out.Lemmas = append(out.Lemmas, f)
		} else {
			out.Functions = append(out.Functions, f)
		}
	}
	out.Assumes, out.External, out.Axioms = keysOf(assumes), keysOf(ext), keysOf(axioms)
	out.WallS = time.Since(t0).Seconds()
	if *outf != "" {
		b, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(*outf, b, 0644)
	}
	np := 0
	for _, v := range out.VCs {
		if v.Status == "proved" {
			np++
		}
	}
	fmt.Printf("govc: %d functions, %d lemmas, %d/%d obligations discharged, %d errors, %d vacuous, gen %.1fs wall %.1fs\n", len(out.Functions), len(out.Lemmas), np, len(out.VCs), len(out.Errors), len(out.Vacuous), gen, out.WallS)
	for _, e := range out.Errors {
		fmt.Println("ERROR", e)
	}
	for _, v := range out.Vacuous {
		fmt.Println("VACUOUS", v)
	}
	for _, v := range out.Failed {
		fmt.Printf("FAILED %s: %s (%s) [%s]\n", v.Func, v.Label, v.Pos, strings.ReplaceAll(v.Out, "\n", " "))
	}
	if len(out.Failed)+len(out.Errors)+len(out.Vacuous) > 0 {
		os.Exit(1)
	}
}
