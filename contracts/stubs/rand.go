package stubs

import "math/rand"

// Stand-ins for external functions that take closures. rand_Shuffle stands for math/rand.Shuffle:
// Fisher-Yates with an arbitrary partner in every step.
func rand_Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		j := rand.Intn(i + 1)
		swap(i, j)
	}
}
