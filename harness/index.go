package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/dball/destructive/internal/index"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// An index of one order, with what it must hold.
type refIndex struct {
	idx  index.Index
	name string
	st   state
}

type indexOrder struct {
	name     string
	typ      index.IndexType
	partials []index.PartialIndex
}

var indexOrders = []indexOrder{
	{"EAV", index.EAVIndex, []index.PartialIndex{index.E, index.EA}},
	{"AEV", index.AEVIndex, []index.PartialIndex{index.A, index.AE}},
	{"AVE", index.AVEIndex, []index.PartialIndex{index.A, index.AV}},
	{"VAE", index.VAEIndex, nil},
}

var partialNames = map[index.PartialIndex]string{index.E: "E", index.EA: "EA", index.A: "A", index.AE: "AE", index.AV: "AV"}

type indexCase struct {
	c      *cse
	order  indexOrder
	types  map[types.ID]types.ID
	kinds  map[types.ID]kind
	es, as []types.ID
	vals   map[types.ID][]val
	w      *world // for its pools
	all    []*refIndex
	nextT  types.ID
}

func (x *indexCase) less(a, b eav) bool {
	switch x.order.name {
	case "EAV":
		return lessEAV(a, b)
	case "AEV":
		return lessAEV(a, b)
	}
	// AVE
	if a.A != b.A {
		return a.A < b.A
	}
	if a.V != b.V {
		return a.V.less(b.V)
	}
	return a.E < b.E
}

func (x *indexCase) datum() eav {
	c := x.c
	a := pick(c, x.as)
	return eav{pick(c, x.es), a, pick(c, x.vals[a])}
}

func (x *indexCase) datumOf(d eav, t types.ID) types.Datum {
	return types.Datum{E: d.E, A: d.A, V: x.w.raw(d.V).(types.Value), T: t}
}

// op changes one index, and its reference.
func (x *indexCase) op(r *refIndex) {
	c := x.c
	d := x.datum()
	if len(r.st) > 0 && c.oneIn(3) {
		d = pick(c, r.st.sorted())
	}
	t, held := r.st[d]
	switch n := c.IntN(20); {
	case n < 11:
		x.nextT++
		c.log("%s insert %s @%d", r.name, d, x.nextT)
		if got := r.idx.Insert(x.datumOf(d, x.nextT)); got != held {
			c.violated("%s: inserting %s reports extant %v rather than %v", r.name, d, got, held)
		}
		if !held {
			r.st[d] = x.nextT
		} else {
			c.count("inserted again", 1)
		}
	case n < 18:
		c.log("%s delete %s", r.name, d)
		if got := r.idx.Delete(x.datumOf(d, t)); got != held {
			c.violated("%s: deleting %s reports extant %v rather than %v", r.name, d, got, held)
		}
		delete(r.st, d)
		if held {
			c.count("deleted", 1)
		}
	default:
		if len(x.all) < 5 {
			s := &refIndex{r.idx.Clone(), fmt.Sprintf("%s.%d", r.name, len(x.all)), r.st.clone()}
			x.all = append(x.all, s)
			c.log("%s is a clone of %s", s.name, r.name)
		} else {
			i := c.IntN(len(x.all))
			x.all[i] = &refIndex{r.idx.Clone(), fmt.Sprintf("%s'%d", r.name[:min(len(r.name), 20)], x.nextT), r.st.clone()}
			c.log("%s is a clone of %s", x.all[i].name, r.name)
		}
		c.count("clones", 1)
	}
	c.count("index operations", 1)
}

// selection checks one prefix.
func (x *indexCase) selection(r *refIndex, p index.PartialIndex, d eav) {
	c := x.c
	var want []eav
	for k := range r.st {
		var ok bool
		switch p {
		case index.E:
			ok = k.E == d.E
		case index.EA, index.AE:
			ok = k.E == d.E && k.A == d.A
		case index.A:
			ok = k.A == d.A
		case index.AV:
			ok = k.A == d.A && k.V == d.V
		}
		if ok {
			want = append(want, k)
		}
	}
	sort.Slice(want, func(i, j int) bool { return x.less(want[i], want[j]) })
	match := types.Datum{E: d.E, A: d.A}
	if p == index.AV {
		match = x.datumOf(d, 0)
	}
	if p == index.E {
		match.A = 0
	}
	what := fmt.Sprintf("%s (%s): selecting by %s of %s", r.name, x.order.name, partialNames[p], d)
	x.sequence(r, what, rows(r.idx.Select(p, match)), want)
	if n := r.idx.Count(p, match); n != len(want) {
		c.violated("%s counts %d rather than %d", what, n, len(want))
	}
	first, ok := r.idx.First(p, match)
	if p != index.E { // which has no first, there being several types of value
		if ok != (len(want) > 0) {
			c.violated("%s finds a first: %v, of %d", what, ok, len(want))
		} else if ok {
			if got := rowOf(first); got.eav != want[0] || got.T != r.st[want[0]] {
				c.violated("%s finds %s@%d first rather than %s@%d", what, got, got.T, want[0], r.st[want[0]])
			}
		}
	}
	c.count("selections compared", 1)
	if len(want) > 0 {
		c.count("selections with results", 1)
	}
}

func (x *indexCase) sequence(r *refIndex, what string, got []row, want []eav) {
	for i := range min(len(got), len(want)) {
		if got[i].eav != want[i] || got[i].T != r.st[want[i]] {
			x.c.violated("%s yields %s@%d at %d rather than %s@%d", what, got[i], got[i].T, i, want[i], r.st[want[i]])
			return
		}
	}
	if len(got) != len(want) {
		x.c.violated("%s yields %d datums rather than %d", what, len(got), len(want))
	}
}

func (x *indexCase) find(r *refIndex, d eav) {
	_, held := r.st[d]
	if got := r.idx.Find(x.datumOf(d, 0)); got != held {
		x.c.violated("%s: finding %s gives %v rather than %v", r.name, d, got, held)
	}
	x.c.count("finds compared", 1)
}

func (x *indexCase) scan(r *refIndex) {
	c := x.c
	var got []row
	for d := range r.idx.All() {
		got = append(got, rowOf(d))
		if len(got) > len(r.st)+5 {
			break
		}
	}
	want := r.st.sorted()
	if x.order.name != "EAV" { // others promise no order of a scan
		sort.SliceStable(got, func(i, j int) bool { return lessEAV(got[i].eav, got[j].eav) })
	}
	x.sequence(r, r.name+" ("+x.order.name+"): a full scan", got, want)
	c.count("scans compared", 1)
}

func (x *indexCase) check(r *refIndex, n int) {
	c := x.c
	held := r.st.sorted()
	for range n {
		d := x.datum()
		if len(held) > 0 && c.oneIn(2) {
			d = pick(c, held)
		}
		x.find(r, d)
		for _, p := range x.order.partials {
			x.selection(r, p, d)
		}
		// A value of another type is nowhere.
		other := pick(c, allKinds)
		if other != x.kinds[d.A] {
			v := pick(c, x.vals[x.byKind(other)]).value()
			if r.idx.Find(types.Datum{E: d.E, A: d.A, V: v}) {
				c.violated("%s finds %v for an attribute of type %s", r.name, v, x.kinds[d.A])
			}
			if x.order.name == "AVE" {
				m := types.Datum{A: d.A, V: v}
				_, ok := r.idx.First(index.AV, m)
				if k := len(rows(r.idx.Select(index.AV, m))); ok || k > 0 || r.idx.Count(index.AV, m) > 0 {
					c.violated("%s finds %v for an attribute of type %s", r.name, v, x.kinds[d.A])
				}
			}
		}
	}
}

func (x *indexCase) byKind(k kind) types.ID {
	for _, a := range x.as {
		if x.kinds[a] == k {
			return a
		}
	}
	return 0
}

func runC19(c *cse) {
	x := &indexCase{c: c, types: map[types.ID]types.ID{}, kinds: map[types.ID]kind{}, vals: map[types.ID][]val{}, nextT: 100}
	x.order = indexOrders[[]int{0, 0, 1, 1, 2, 2, 3}[c.IntN(7)]]
	x.w = &world{c: c, given: map[types.ID]bool{}, sc: state{}.schema()}
	// Attributes of every type, next to each other and at the ends.
	base := pick(c, []types.ID{1, sys.FirstUserID, math.MaxUint64 - 20})
	kinds := append(append([]kind{}, allKinds...), allKinds...)
	c.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for i, k := range kinds {
		a := base + types.ID(i)
		x.as = append(x.as, a)
		x.types[a] = k.typeID()
		x.kinds[a] = k
	}
	big := c.oneIn(4)
	nv := 4 + c.IntN(10)
	if big {
		nv = 40
	}
	for _, a := range x.as {
		seen := map[val]bool{}
		if x.kinds[a] != kRef && c.oneIn(3) {
			for _, v := range x.w.confusable(x.kinds[a]) {
				seen[v] = true
				x.vals[a] = append(x.vals[a], v)
			}
		}
		for range nv {
			v := x.w.poolVal(x.kinds[a])
			if c.oneIn(3) {
				v = x.w.freshVal(x.kinds[a])
			}
			if x.kinds[a] == kRef {
				v = vref(pick(c, []types.ID{0, 1, 2, 5, math.MaxUint64, 1 << 63, 1<<63 - 1, sys.FirstUserID}))
				if c.oneIn(2) {
					v = vref(types.ID(c.Uint64()))
				}
			}
			if !seen[v] {
				seen[v] = true
				x.vals[a] = append(x.vals[a], v)
			}
		}
	}
	x.es = []types.ID{1, 2, 3, sys.FirstUserID, math.MaxUint64, 1 << 63}
	if big {
		for range 20 {
			x.es = append(x.es, types.ID(c.Uint64()))
		}
	} else if c.oneIn(2) {
		x.es = x.es[:1+c.IntN(5)]
	}
	degree := pick(c, degrees)
	c.guarded("using an index", func() {
		x.all = []*refIndex{{index.NewCompositeIndex(degree, x.order.typ, x.types), "index", state{}}}
		steps := 150
		if big {
			steps = 900
		}
		for i := range steps {
			if c.failed() {
				return
			}
			r := pick(c, x.all)
			x.op(r)
			if i%4 == 0 || !big {
				x.check(pick(c, x.all), 1)
			}
			if i%30 == 29 {
				for _, r := range x.all {
					x.scan(r)
				}
			}
		}
		for _, r := range x.all {
			x.scan(r)
			x.check(r, 20)
		}
	})
	n := 0
	for _, r := range x.all {
		n += len(r.st)
	}
	c.sample = fmt.Sprintf("%s index of degree %d, %d clones holding %d datums in all", x.order.name, degree, len(x.all), n)
	c.feature(fmt.Sprintf("%s %d %d %v %d", x.order.name, degree, len(x.es), kinds, n))
}

func init() {
	register(&check{
		id: "C19", quick: 2000, thorough: 20000,
		floors: map[string]int{"index operations": 50000, "selections with results": 20000, "scans compared": 4000, "clones": 4000, "inserted again": 5000, "deleted": 5000},
		rule:   "sequences of inserts, deletes and clones of an index of some order and degree over extreme and nearly equal values of every type, compared to a sorted reference by find, first, count, selection of each prefix and scan; distinct by order, degree, attribute types and sizes",
		run:    runC19,
	})
}
