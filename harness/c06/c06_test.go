package c06

import (
	"fmt"
	"testing"

	"github.com/RenatoGeh/gospn/common"
	"github.com/RenatoGeh/gospn/verifh/vh"
)

// Operation sequences on Queue and Stack against a plain slice.
func run(kind string, ops []int) string {
	var c common.Collection
	var q *common.Queue
	var s *common.Stack
	if kind == "queue" {
		q = &common.Queue{}
		c = q
	} else {
		s = &common.Stack{}
		c = s
	}
	var m []int
	next := 0
	for step, op := range ops {
		what := ""
		var got, want interface{}
		switch op {
		case 0, 1:
			next++
			if op == 0 || kind != "queue" {
				c.Give(next)
			} else {
				q.Enqueue(next)
			}
			if op == 1 && kind == "stack" {
				next++
				s.Push(next)
				m = append(m, next-1)
			}
			m = append(m, next)
		case 2, 3:
			if len(m) == 0 {
				continue
			}
			what = "take"
			if kind == "queue" {
				want = m[0]
				m = m[1:]
				if op == 2 {
					got = c.Take()
				} else {
					got = q.Dequeue()
				}
			} else {
				want = m[len(m)-1]
				m = m[:len(m)-1]
				if op == 2 {
					got = c.Take()
				} else {
					got = s.Pop()
				}
			}
		case 4:
			if len(m) == 0 || kind != "queue" {
				continue
			}
			what = "dequeueback"
			want = m[len(m)-1]
			m = m[:len(m)-1]
			got = q.DequeueBack()
		case 5:
			if len(m) == 0 {
				continue
			}
			what = "peek"
			want = m[0]
			if kind == "stack" {
				want = m[len(m)-1]
			}
			got = c.Peek()
		case 6:
			r := make([]int, len(m))
			for i := range m {
				r[len(m)-1-i] = m[i]
			}
			m = r
			if x := c.Invert(); x != c {
				return fmt.Sprintf("step %d: Invert returned another collection", step)
			}
		case 7:
			c.Shrink()
		case 8:
			c.Reset()
			m = nil
		}
		if what != "" && got != want {
			return fmt.Sprintf("step %d (%s): got %v, want %v", step, what, got, want)
		}
		if c.Size() != len(m) || c.Empty() != (len(m) == 0) {
			return fmt.Sprintf("step %d: size %d empty %v, want size %d", step, c.Size(), c.Empty(), len(m))
		}
		for i := range m {
			if c.Get(i) != m[i] {
				return fmt.Sprintf("step %d: Get(%d)=%v, want %d", step, i, c.Get(i), m[i])
			}
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	vh.Run(t, func(h *vh.T) {
		for _, kind := range []string{"queue", "stack"} {
			kind := kind
			L := vh.N(5, 6)
			for n := 1; n <= L; n++ {
				tot := 1
				for i := 0; i < n; i++ {
					tot *= 9
				}
				if n == 6 && tot > 600000 {
					tot = 600000
				}
				for x := 0; x < tot; x++ {
					ops := make([]int, n)
					for i, y := 0, x; i < n; i, y = i+1, y/9 {
						ops[i] = y % 9
					}
					if n == L && ops[0] > 1 {
						continue
					}
					skip := false
					for i := range ops {
						if ops[i] == 7 && n > 3 {
							skip = true // Shrink calls the garbage collector: keep these few
						}
					}
					if skip {
						continue
					}
					h.Case(n > 1, vh.Sf("%s ops=%v", kind, ops), func() string { return run(kind, ops) })
				}
			}
			r := vh.Rand()
			for i := 0; i < vh.N(200, 3000); i++ {
				n := 5 + r.Intn(60)
				ops := make([]int, n)
				for j := range ops {
					ops[j] = r.Intn(9)
					if ops[j] == 8 && r.Intn(4) != 0 || ops[j] == 7 && r.Intn(6) != 0 {
						ops[j] = 0
					}
				}
				h.Case(true, vh.Sf("%s ops=%v", kind, ops), func() string { return run(kind, ops) })
			}
		}
		// every size up to 140: fill, one special operation, drain
		for _, kind := range []string{"queue", "stack"} {
			kind := kind
			for n := 0; n <= 140; n++ {
				for _, sp := range []int{6, 7, 4, 2} {
					if sp == 7 && n > 20 && n%7 != int(vh.Seed())%7 && n < 60 {
						continue
					}
					var ops []int
					for i := 0; i < n; i++ {
						ops = append(ops, 0)
					}
					ops = append(ops, sp)
					h.Case(n > 1, vh.Sf("%s %d times give, then op %d, all contents compared", kind, n, sp), func() string { return run(kind, ops) })
				}
			}
		}
		// large: past the shrink threshold
		for _, kind := range []string{"queue", "stack"} {
			kind := kind
			var ops []int
			for i := 0; i < 300; i++ {
				ops = append(ops, 0)
			}
			for i := 0; i < 290; i++ {
				ops = append(ops, 2)
			}
			ops = append(ops, 6, 0, 2, 2, 5)
			h.Case(true, vh.Sf("%s 300 give, 290 take, invert ...", kind), func() string { return run(kind, ops) })
		}
	})
}
