package main

import (
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"sync"
	"sync/atomic"

	"github.com/dball/destructive/internal/types"
)

// child is a case for one goroutine of c. It shares nothing with its parent or siblings,
// since to do so would order what the code under test does not.
func (c *cse) child() *cse {
	return &cse{
		Rand: rand.New(rand.NewPCG(c.Uint64(), c.Uint64())), check: c.check, n: c.n, seed: c.seed, tier: c.tier, race: c.race,
		counts: map[string]int{}, shape: map[string]bool{},
	}
}

// together runs n goroutines, released at once, and gathers what they saw.
func (c *cse) together(n int, f func(i int, c *cse)) {
	kids := make([]*cse, n)
	errs := make([]string, n)
	for i := range kids {
		kids[i] = c.child()
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, kid := range kids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}()
			<-gate
			f(i, kid)
		}()
	}
	close(gate)
	wg.Wait()
	for i, kid := range kids {
		for k, v := range kid.counts {
			c.count(k, v)
		}
		for s := range kid.shape {
			c.feature(s)
		}
		for _, t := range kid.trace {
			c.log("[%d] %s", i, t)
		}
		c.mu.Lock()
		for _, v := range kid.findings {
			if len(c.findings) < 20 {
				c.findings = append(c.findings, v)
			}
		}
		if c.sample == "" {
			c.sample = kid.sample
		}
		c.mu.Unlock()
	}
	for _, e := range errs {
		if e != "" {
			bug("%s", e)
		}
	}
}

// fork is a world for one goroutine, which knows what w does and sees the same database.
func (w *world) fork(c *cse) *world {
	f := &world{c: c, db: w.db, st: w.st.clone(), given: map[types.ID]bool{}, highest: w.highest, ops: w.ops, opsSum: w.opsSum,
		noise: w.noise, names: append([]string{}, w.names...), declared: w.declared + 100*w.c.IntN(3),
		retired: append([]types.ID{}, w.retired...), lost: append([]eav{}, w.lost...)}
	f.sc = f.st.schema()
	for id := range w.given {
		f.given[id] = true
	}
	return f
}

// see updates a fork by what a snapshot holds.
func (w *world) see(st state) {
	before := w.st
	w.st, w.sc = st, st.schema()
	for d := range st {
		if d.E > w.highest {
			w.highest = d.E
		}
	}
	w.track(before, st)
}

// clock orders the events of a concurrent history.
type clock struct{ atomic.Int64 }

func (k *clock) tick() int64 { return k.Add(1) }
