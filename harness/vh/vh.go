// Package vh is the support library of the replay harnesses. It is compiled into the
// repository's module by a build overlay; nothing of it is stored in /repo.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

type sample struct {
	Case string `json:"case"`
}

var (
	mu      sync.Mutex
	cur     string
	curAt   time.Time
	evals   int
	seen    = map[uint64]bool{}
	samples []string
	failed  string
	once    sync.Once
)

// Seed returns VERIF_SEED.
func Seed() int64 {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return 1
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a number of cases for the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Rand is the seeded source of every random choice.
func Rand() *rand.Rand { return rand.New(rand.NewSource(Seed()*7919 + 17)) }

func report(kind, msg string) {
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"kind": kind, "input": cur, "observed": msg, "seed": Seed()}, "", " ")
		os.WriteFile(p, b, 0644)
	}
}

func flush() {
	if p := os.Getenv("VERIF_COV"); p != "" {
		b, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct_nontrivial": len(seen), "samples": samples})
		os.WriteFile(p, b, 0644)
	}
}

func watchdog() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			mu.Lock()
			c, at := cur, curAt
			mu.Unlock()
			if c == "" {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if time.Since(at) > 60*time.Second {
				report("nontermination", "the call did not return within 60 s")
				os.Exit(1)
			}
			if ms.HeapAlloc > 6<<30 {
				report("memory", "the call allocated more than 6 GB")
				os.Exit(1)
			}
		}
	}()
}

// T runs one property's cases.
type T struct{ t *testing.T }

// Run starts a harness.
func Run(t *testing.T, f func(h *T)) {
	once.Do(watchdog)
	os.Stdout, _ = os.Open(os.DevNull)
	defer flush()
	f(&T{t})
}

// Case runs one case: desc is the full input; f returns "" or what was observed.
// A panic of the code under test is a failure, too.
func (h *T) Case(nontrivial bool, desc string, f func() string) {
	mu.Lock()
	cur, curAt = desc, time.Now()
	mu.Unlock()
	evals++
	if nontrivial {
		hh := fnv.New64a()
		hh.Write([]byte(desc))
		seen[hh.Sum64()] = true
		if len(samples) < 4 {
			d := desc
			if len(d) > 400 {
				d = d[:400] + "..."
			}
			samples = append(samples, d)
		}
	}
	msg := func() (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return f()
	}()
	if msg != "" {
		report("failing-input", msg)
		flush()
		h.t.Fatalf("%s\ninput: %s", msg, desc)
	}
	mu.Lock()
	cur = ""
	mu.Unlock()
}

// Close compares floats up to rounding.
func Close(a, b float64) bool { return CloseTol(a, b, 1e-9) }

// CloseTol compares floats with a relative and absolute tolerance.
func CloseTol(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// LogOf is the log-space image of a non-negative real computed independently.
func LogOf(x float64) float64 {
	if x <= 0 {
		return math.Inf(-1)
	}
	return math.Log(x)
}

// Sf is fmt.Sprintf.
func Sf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
