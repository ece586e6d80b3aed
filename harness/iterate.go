package main

import (
	"fmt"
	"iter"
	"runtime"
	"time"

	"github.com/dball/destructive/internal/types"
)

type row struct {
	eav
	T types.ID
}

func rowOf(d types.Datum) row { return row{eav{d.E, d.A, fromValue(d.V)}, d.T} }

func rows(seq iter.Seq[types.Datum]) (out []row) {
	for d := range seq {
		out = append(out, rowOf(d))
	}
	return
}

func sameRows(a, b []row) string {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return fmt.Sprintf("at %d of %d and %d, %s@%d rather than %s@%d", i, len(a), len(b), a[i], a[i].T, b[i], b[i].T)
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d rather than %d", len(a), len(b))
	}
	return ""
}

// iterate takes a query's results in every way a consumer might.
func iterate(c *cse, snap types.Snapshot, cl types.Claim) {
	q := renderQuery(cl)
	c.guarded("iterating "+q, func() {
		seq := snap.Select(cl)
		whole := rows(seq)
		c.count("sequences", 1)
		if why := sameRows(rows(seq), whole); why != "" {
			c.violated("%s iterated again yields differently: %s", q, why)
		}
		if why := sameRows(rows(snap.Select(cl)), whole); why != "" {
			c.violated("%s selected again yields differently: %s", q, why)
		}
		if len(whole) > 0 {
			c.feature(fmt.Sprintf("%T %T %T of %d", cl.E, cl.A, cl.V, min(len(whole), 40)/4))
		}
		stops := []int{0, 1, len(whole) / 2, len(whole) - 1, c.IntN(len(whole) + 1)}
		for _, k := range stops {
			if k < 0 {
				continue
			}
			// Abandoned, and counting what it does afterwards.
			var got []row
			after := 0
			stopped := false
			seq(func(d types.Datum) bool {
				if stopped {
					after++
					return false
				}
				if len(got) == k {
					stopped = true
					return false
				}
				got = append(got, rowOf(d))
				return true
			})
			if after > 0 {
				c.violated("%s yields %d more after being abandoned at %d of %d", q, after, k, len(whole))
			}
			if why := sameRows(got, whole[:min(k, len(whole))]); why != "" {
				c.violated("%s abandoned after %d yields %s", q, k, why)
			}
			// Pulled, and dropped.
			next, stop := iter.Pull(seq)
			got = nil
			for range k {
				d, ok := next()
				if !ok {
					break
				}
				got = append(got, rowOf(d))
			}
			stop()
			if _, ok := next(); ok {
				c.violated("%s yields after being stopped", q)
			}
			if why := sameRows(got, whole[:min(k, len(whole))]); why != "" {
				c.violated("%s pulled %d times yields %s", q, k, why)
			}
			c.count("abandoned", 2)
		}
		// A consumer which fails leaves the sequence of use to others.
		if len(whole) > 0 {
			at := c.IntN(len(whole))
			func() {
				defer func() {
					if r := recover(); r != "consumer" {
						panic(r)
					}
				}()
				i := 0
				for range seq {
					if i == at {
						panic("consumer")
					}
					i++
				}
				panic("consumer")
			}()
			c.count("failed consumers", 1)
		}
		// Several consumers at once, at different paces, some of which give up, with
		// other queries between.
		type consumer struct {
			next func() (types.Datum, bool)
			stop func()
			got  []row
			done bool
			quit int
		}
		var cs []*consumer
		for range 2 + c.IntN(3) {
			s := seq
			if c.oneIn(2) {
				s = snap.Select(cl)
			}
			x := &consumer{quit: -1}
			if c.oneIn(3) {
				x.quit = c.IntN(len(whole) + 1)
			}
			x.next, x.stop = iter.Pull(s)
			cs = append(cs, x)
		}
		live := len(cs)
		for live > 0 {
			x := pick(c, cs)
			if x.done {
				continue
			}
			if x.quit == len(x.got) {
				x.stop()
				x.done = true
				live--
				continue
			}
			d, ok := x.next()
			if !ok {
				x.done = true
				live--
				continue
			}
			x.got = append(x.got, rowOf(d))
			if len(x.got) > len(whole) {
				x.stop()
				x.done = true
				live--
			}
			if c.oneIn(10) && snap.Count(cl) != len(whole) {
				c.violated("%s counts differently while being iterated", q)
			}
		}
		for i, x := range cs {
			want := whole
			if x.quit >= 0 {
				want = whole[:min(x.quit, len(whole))]
			}
			if why := sameRows(x.got, want); why != "" {
				c.violated("consumer %d of %d of %s sees %s", i, len(cs), q, why)
			}
			x.stop()
		}
		c.count("interleaved consumers", len(cs))
		// Nested.
		if len(whole) > 0 && len(whole) < 60 {
			n := 0
			for range seq {
				for range seq {
					n++
				}
			}
			if n != len(whole)*len(whole) {
				c.violated("%s within itself yields %d rather than %d", q, n, len(whole)*len(whole))
			}
		}
		if why := sameRows(rows(seq), whole); why != "" {
			c.violated("%s iterated after others were abandoned yields differently: %s", q, why)
		}
	})
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// lazy compares the work done for the first results to that done for all.
func lazy(c *cse, snap types.Snapshot, cl types.Claim) {
	q := renderQuery(cl)
	c.guarded("iterating "+q, func() {
		n := 0
		start := allocated()
		for range snap.Select(cl) {
			n++
		}
		full := allocated() - start
		if n < 2000 || full < 20000 {
			return
		}
		best, after := ^uint64(0), ^uint64(0)
		for range 3 {
			start = allocated()
			var quit uint64
			i := 0
			for range snap.Select(cl) {
				if i++; i == 3 {
					quit = allocated()
					break
				}
			}
			end := allocated()
			best = min(best, end-start)
			after = min(after, end-quit)
		}
		c.count("laziness measured", 1)
		// Those of a value alone may only be found by passing over others.
		if best > full/4 && (cl.E != nil || cl.A != nil || cl.V == nil) {
			c.violated("%s allocates %d bytes for the first 3 of %d results, and %d for all", q, best, n, full)
		}
		if after > full/4 {
			c.violated("%s allocates %d bytes after being abandoned at 3 of %d results, and %d for all", q, after, n, full)
		}
	})
}

func goroutines() int { return runtime.NumGoroutine() }

func runC14(c *cse) {
	base := goroutines()
	if c.n%10 == 0 {
		runLazy(c)
	} else {
		w := datumWorld(c, map[string]int{"many": 20, "new": 20, "retract": 8, "touchattr": 3}, 0.05)
		if w == nil {
			return
		}
		w.history(25+c.IntN(40), nil)
		if c.failed() {
			return
		}
		snap := w.db.Read()
		for range 25 {
			cl := w.randomQuery()
			w.query(snap, w.st, w.sc, cl, "C14")
			iterate(c, snap, cl)
			c.sample = renderQuery(cl)
		}
		ds := w.datums(nil)
		if len(ds) == 0 {
			return
		}
		d := pick(c, ds)
		for _, cl := range []types.Claim{{}, {E: d.E}, {A: d.A}, {V: d.V.vref()}, {E: d.E, A: d.A}, {A: d.A, V: d.V.vref()}, {E: d.E, V: d.V.vref()}, {E: d.E, A: d.A, V: d.V.vref()}} {
			w.query(snap, w.st, w.sc, cl, "C14")
			iterate(c, snap, cl)
		}
	}
	// Nothing may be left running.
	left := goroutines()
	for i := 0; left > base && i < 200; i++ {
		time.Sleep(5 * time.Millisecond)
		runtime.Gosched()
		left = goroutines()
	}
	if left > base {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.log("%s", buf)
		c.violated("%d goroutines are left after all iteration was completed or abandoned", left-base)
	}
	c.count("leak checks", 1)
}

func runLazy(c *cse) {
	w := newWorld(c, pick(c, degrees))
	if w == nil || !w.declareAttrs(36) {
		return
	}
	n := 3000 + c.IntN(2000)
	many := w.userAttrs(func(a *attrInfo) bool { return a.Many && a.K != kBool && a.Unique == 0 })
	ones := w.userAttrs(func(a *attrInfo) bool { return !a.Many && a.Unique == 0 })
	m, o, o2 := pick(c, many), pick(c, ones), pick(c, ones)
	uv := w.attrWhere(func(a *attrInfo) bool { return a.Unique != 0 && !a.Many && a.K == kInt })
	val := func(k kind, i int) val {
		switch k {
		case kStr:
			return vstr(fmt.Sprintf("value %d", i))
		case kFloat:
			return vfloat(float64(i) + 0.5)
		case kInst:
			return vinst(int64(i) * 1000)
		case kRef:
			return vref(types.ID(5000 + i))
		case kBool:
			return vbool(i%2 == 0)
		}
		return vint(int64(i) * 300)
	}
	var req types.Request
	for i := range n {
		t := types.TempID(fmt.Sprint(i))
		req.Claims = append(req.Claims, types.Claim{E: types.TempID("big"), A: m.ID, V: val(m.K, i).vref()},
			types.Claim{E: t, A: o.ID, V: val(o.K, i).vref()})
		if o2 != o {
			req.Claims = append(req.Claims, types.Claim{E: t, A: o2.ID, V: val(o2.K, 1).vref()})
		}
		if uv != nil {
			req.Claims = append(req.Claims, types.Claim{E: t, A: uv.ID, V: vint(int64(i)).vref()})
		}
	}
	var res types.Response
	if !c.guarded("Write", func() { res = w.db.Write(req) }) {
		return
	}
	if res.Error != nil {
		return // which others will judge
	}
	snap := res.Snapshot
	big := res.TempIDs["big"]
	for _, cl := range []types.Claim{{}, {E: big}, {E: big, A: m.ID}, {A: m.ID}, {A: o.ID}, {A: o2.ID}, {A: o2.ID, V: val(o2.K, 1).vref()}, {V: val(o2.K, 1).vref()}} {
		lazy(c, snap, cl)
	}
	c.feature("large " + m.Ident + " " + o.Ident)
}

func init() {
	register(&check{
		id: "C14", quick: 350, thorough: 4000, serial: true,
		floors: map[string]int{"sequences": 2000, "abandoned": 10000, "interleaved consumers": 4000, "laziness measured": 50, "leak checks": 150, "queries with results": 1500},
		rule:   "queries of every shape over databases made by random histories, compared in order to a sorted filter, iterated again, by several interleaved consumers, abandoned and failed at every kind of point; the goroutines left are counted, and on large databases the memory taken for the first results compared to that for all; distinct by query shapes and sizes",
		run:    runC14,
	})
}
