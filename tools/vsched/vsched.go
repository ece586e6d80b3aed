// Package vsched perturbs the scheduler. It shares nothing between goroutines, so that it
// orders nothing which the code under test does not.
package vsched

import (
	"math/rand/v2"
	"runtime"
)

// P may let other goroutines run.
func P() {
	switch n := rand.Uint32(); {
	case n&0x1f == 0:
		runtime.Gosched()
	case n&0x3ff == 1:
		for range 30 {
			runtime.Gosched()
		}
	}
}
