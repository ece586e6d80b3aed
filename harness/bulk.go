package main

import (
	"fmt"
	"sort"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// Requests of hundreds of claims, in a few of the worlds: what holds of few must hold of many.

func (w *world) bulkSize() int {
	c := w.c
	if c.oneIn(40) {
		return 900 + c.IntN(1200)
	}
	return pick(c, []int{9 + c.IntN(10), 31 + c.IntN(4), 63 + c.IntN(4), 99 + c.IntN(30), 127 + c.IntN(4), 255 + c.IntN(4), 300 + c.IntN(200)})
}

var bulkOps = map[string]func(w *world, b *build) bool{
	"bulk new": func(w *world, b *build) bool {
		as := w.userAttrs(func(a *attrInfo) bool { return a.K != kBool })
		if len(as) == 0 {
			return false
		}
		taken := map[av]bool{}
		for range w.bulkSize() {
			t := b.temp()
			a := pick(w.c, as)
			v, ok := w.valueFor(a)
			if ok && !taken[av{a.ID, v}] {
				taken[av{a.ID, v}] = a.Unique != 0
				b.add(w.claim(t, a, w.vref(v), false))
			}
		}
		return len(b.claims) > 0
	},
	"bulk many": func(w *world, b *build) bool {
		a := w.attrWhere(func(a *attrInfo) bool { return a.Many && a.K != kBool && a.K != kRef })
		if a == nil {
			return false
		}
		var e types.ERef = b.temp()
		if x, ok := w.entity(); ok && w.c.oneIn(2) {
			e = w.eref(x)
		}
		for range w.bulkSize() {
			v := w.freshVal(a.K)
			if _, held := w.sc.holder[av{a.ID, v}]; !held {
				b.add(w.claim(e, a, w.vref(v), false))
			}
		}
		return true
	},
	"bulk replace": func(w *world, b *build) bool {
		return w.bulkHeld(b, func(d eav, a *attrInfo) bool { return !a.Many && a.K != kBool && a.K != kRef }, func(d eav, a *attrInfo) {
			v := w.freshVal(a.K)
			if _, held := w.sc.holder[av{a.ID, v}]; !held {
				b.add(w.claim(w.eref(d.E), a, w.vref(v), false))
			}
		})
	},
	"bulk retract": func(w *world, b *build) bool {
		return w.bulkHeld(b, nil, func(d eav, a *attrInfo) {
			b.add(w.claim(d.E, a, w.vref(d.V), true))
		})
	},
	"bulk restate": func(w *world, b *build) bool {
		return w.bulkHeld(b, nil, func(d eav, a *attrInfo) {
			b.add(w.claim(w.eref(d.E), a, w.vref(d.V), false))
		})
	},
	"bulk retractentity": func(w *world, b *build) bool {
		es := w.entities()
		w.c.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		es = es[:min(len(es), w.bulkSize())]
		for _, e := range es {
			r := w.idref(e)
			if !hashable(r) {
				r = e
			}
			b.retractions = append(b.retractions, types.Retraction{Constraints: map[types.IDRef]types.Void{r: {}}})
		}
		return len(es) > 0
	},
	"bulk name": func(w *world, b *build) bool {
		w.declared++
		es := w.entities()
		for i := range w.bulkSize() {
			var e types.ERef = b.temp()
			if i < len(es) {
				e = es[i]
			}
			b.add(w.claim(e, w.sc.attrs[sys.DbIdent], types.String(fmt.Sprintf("bulk/%d/%d", w.declared, i)), false))
		}
		return true
	},
	"bulk declare": func(w *world, b *build) bool {
		c := w.c
		if len(w.sc.attrs) > 400 {
			return false
		}
		for range min(w.bulkSize(), 150) {
			w.declared++
			k := pick(c, allKinds)
			card := pick(c, []types.ID{0, sys.AttrCardinalityOne, sys.AttrCardinalityMany})
			uniq := pick(c, []types.ID{0, 0, sys.AttrUniqueIdentity, sys.AttrUniqueValue})
			b.add(w.vary(declClaims(b.temp(), fmt.Sprintf("new/%d", w.declared), k.typeID(), card, uniq))...)
		}
		return true
	},
	// A chain of tempids, each the same as the next by sharing an identity with it.
	"bulk unify": func(w *world, b *build) bool {
		a := w.attrWhere(func(a *attrInfo) bool { return identity(a) && a.Many && a.K != kBool && a.K != kRef })
		if a == nil {
			return false
		}
		var cs []types.Claim
		n := min(w.bulkSize(), 300)
		prev, ok := w.freeVal(a)
		if !ok {
			return false
		}
		used := map[val]bool{prev: true}
		for range n {
			t := b.temp()
			next := w.freshVal(a.K)
			if _, held := w.sc.holder[av{a.ID, next}]; held || used[next] {
				continue
			}
			used[next] = true
			cs = append(cs, w.claim(t, a, w.vref(prev), false), w.claim(t, a, w.vref(next), false))
			prev = next
		}
		switch w.c.IntN(3) {
		case 0:
			w.c.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		case 1:
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
			}
		}
		b.add(cs...)
		return true
	},
	"bulk refs": func(w *world, b *build) bool {
		p := w.attrWhere(func(p *attrInfo) bool { return p.K == kRef && p.Unique == 0 })
		if p == nil {
			return false
		}
		n := w.bulkSize()
		ts := make([]types.TempID, n)
		for i := range ts {
			ts[i] = b.temp()
		}
		hub := w.c.oneIn(2) && p.Many
		for i, t := range ts {
			if hub {
				b.add(w.claim(ts[0], p, t, false))
			} else {
				b.add(w.claim(t, p, ts[(i+1)%n], false))
			}
		}
		return true
	},
}

// bulkHeld picks some datums, at most one of each entity and attribute.
func (w *world) bulkHeld(b *build, f func(d eav, a *attrInfo) bool, each func(d eav, a *attrInfo)) bool {
	ds := w.datums(func(d eav, a *attrInfo) bool {
		return a != nil && d.A >= sys.FirstUserID && (f == nil || f(d, a))
	})
	w.c.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	n := w.bulkSize()
	seen := map[ea]bool{}
	for _, d := range ds {
		if n == 0 {
			break
		}
		if k := (ea{d.E, d.A}); !seen[k] {
			seen[k] = true
			n--
			each(d, w.sc.attrs[d.A])
		}
	}
	return len(seen) > 0
}

// bulk makes up a request of hundreds of claims, which may also have to be rejected for one of them.
func (w *world) bulk() types.Request {
	c := w.c
	var names []string
	for name := range bulkOps {
		names = append(names, name)
	}
	sort.Strings(names)
	b := &build{prefix: "t"}
	for range 20 {
		name := pick(c, names)
		if bulkOps[name](w, b) {
			c.count(name, 1)
			c.count("bulk claims", len(b.claims))
			c.feature(name)
			break
		}
	}
	if c.chance(w.noise / 2) {
		op := w.op()
		if genOps[op](w, b) {
			c.feature(op)
		}
	}
	if c.oneIn(3) {
		c.Shuffle(len(b.claims), func(i, j int) { b.claims[i], b.claims[j] = b.claims[j], b.claims[i] })
	}
	return types.Request{Claims: b.claims, Retractions: b.retractions}
}

// grow makes a database one of n datums.
func (w *world) grow(n int) {
	w.c.count("large databases", 1)
	for tries := 0; len(w.st) < n && tries < 200 && !w.c.failed(); tries++ {
		b := &build{prefix: "t"}
		op := pick(w.c, []string{"bulk new", "bulk new", "bulk many", "bulk refs"})
		if bulkOps[op](w, b) {
			w.write(types.Request{Claims: b.claims})
		}
	}
}
