package main

// Discharging of obligations by the SMT back ends.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type backend struct {
	name string
	args func(sec int) []string
	pre  string
}

var backends = []backend{
	{"z3-5", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "smt.random_seed=1"} }, "(set-option :auto_config false)(set-option :smt.mbqi false)\n"},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--no-stats"}
	}, "(set-logic ALL)\n"},
	{"z3-5-noext", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :smt.array.extensional false)\n"},
	{"z3-4.8", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)(set-option :smt.mbqi false)\n"},
	{"z3-5-arith2", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :smt.arith.solver 2)\n"},
	{"z3-5-mbqi", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s)} }, ""},
}

// runSolver limits the processor time to sec seconds; the wall-clock limit is wider, so that a
// busy machine does not change the outcome.
func runSolver(b backend, q string, sec int) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(4*sec+3)*time.Second)
	defer cancel()
	a := append([]string{"prlimit", fmt.Sprintf("--cpu=%d", sec)}, b.args(4*sec)...)
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(b.pre + q + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	return strings.TrimSpace(out.String()), time.Since(t0).Seconds()
}

type job struct {
	vc  *VC
	dup []*VC
}

// solveAll discharges the obligations in parallel. quickTO: seconds for the first attempt of each back end,
// maxTO: seconds for the last attempts.
func solveAll(vcs []*VC, workers int, rounds []int, retry int, budget time.Duration, verbose bool) {
	byQ := map[string]*job{}
	var jobs []*job
	for _, vc := range vcs {
		q, _ := buildQuery(vc.Facts, vc.Goal, vc.Ax)
		vc.query = q
		k := q
		if vc.Smoke {
			k = "smoke" + q
		}
		if j, ok := byQ[k]; ok {
			j.dup = append(j.dup, vc)
			continue
		}
		j := &job{vc: vc}
		byQ[k] = j
		jobs = append(jobs, j)
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	start, nfail := time.Now(), 0
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				vc := j.vc
				vc.Status = "unknown"
				if vc.Smoke {
					out, t := runSolver(backends[0], vc.query, 2)
					vc.Secs += t
					if out == "unsat" || strings.HasSuffix(out, "\nunsat") {
						vc.Status = "vacuous"
					} else {
						vc.Status = "ok"
					}
					vc.Backend = backends[0].name
				} else {
					rs := rounds
					if vc.TO > 0 && retry > 0 {
						rs = append(append([]int{}, rounds...), vc.TO)
					}
				loop:
					for ri, sec := range rs {
						n := len(backends)
						if ri == 0 {
							n = 4
						}
						// many failures: the rest gets less time
						mu.Lock()
						nf := nfail
						mu.Unlock()
						if ri >= 2 && nf >= 4 || ri >= 1 && nf >= 30 || ri >= 1 && budget > 0 && time.Since(start) > budget {
							break
						}
						for _, b := range backends[:n] {
							out, t := runSolver(b, vc.query, sec)
							vc.Secs += t
							first := ""
							for _, ln := range strings.Split(out, "\n") {
								if ln == "unsat" || ln == "sat" || ln == "unknown" || ln == "timeout" || strings.HasPrefix(ln, "(error") {
									first = ln
									break
								}
							}
							vc.Out = b.name + ": " + out
							if first == "unsat" {
								vc.Status = "proved"
								vc.Backend = b.name
								break loop
							}
							if first == "sat" && b.name != "z3-5-mbqi" {
								// no quantifiers left over: a genuine countermodel may exist
								vc.Backend = b.name
							}
							if strings.Contains(out, "error") && verbose {
								fmt.Fprintf(os.Stderr, "solver error %s on %s: %s\n", b.name, vc.Label, out)
							}
						}
					}
				}
				if vc.Status == "unknown" {
					mu.Lock()
					nfail++
					mu.Unlock()
				}
				if verbose {
					mu.Lock()
					fmt.Fprintf(os.Stderr, "  [%s %.2fs %s] %s: %s (%s)\n", vc.Status, vc.Secs, vc.Backend, vc.Func, vc.Label, vc.Pos)
					mu.Unlock()
				}
				for _, d := range j.dup {
					d.Status, d.Backend, d.Out = vc.Status, vc.Backend, vc.Out
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	// a few left: once more, all back ends at the same time, with more time
	var left []*job
	for _, j := range jobs {
		if !j.vc.Smoke && j.vc.Status == "unknown" {
			left = append(left, j)
		}
	}
	if retry == 0 || len(left) == 0 || len(left) > 12 || budget > 0 && time.Since(start) > budget {
		return
	}
	type try struct {
		j *job
		b backend
	}
	ch2 := make(chan try)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch2 {
				mu.Lock()
				done := t.j.vc.Status == "proved" || budget > 0 && time.Since(start) > budget
				mu.Unlock()
				if done {
					continue
				}
				out, secs := runSolver(t.b, t.j.vc.query, retry)
				mu.Lock()
				t.j.vc.Secs += secs
				if strings.HasPrefix(out, "unsat") && t.j.vc.Status != "proved" {
					t.j.vc.Status, t.j.vc.Backend, t.j.vc.Out = "proved", t.b.name, ""
					for _, d := range t.j.dup {
						d.Status, d.Backend, d.Out = "proved", t.b.name, ""
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, b := range backends[:5] {
		for _, j := range left {
			ch2 <- try{j, b}
		}
	}
	close(ch2)
	wg.Wait()
}
