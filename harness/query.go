package main

import (
	"fmt"
	"sort"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// expect is what a query must yield: a filter over all datums.
func expect(st state, sc *schema, claim types.Claim) (out []eav) {
	var e, a types.ID
	var v val
	hasE, hasA, hasV := true, true, true
	switch x := claim.E.(type) {
	case nil:
		hasE = false
	case types.ID, types.Ident, types.LookupRef:
		e = resolveIDRef(sc, x.(types.IDRef), 0)
		if e == 0 {
			return
		}
	default:
		return
	}
	switch x := claim.A.(type) {
	case nil:
		hasA = false
	default:
		a = resolveIDRef(sc, x, 0)
		if a == 0 {
			return
		}
	}
	switch x := claim.V.(type) {
	case nil:
		hasV = false
	case types.Ident, types.LookupRef:
		id := resolveIDRef(sc, x.(types.IDRef), 0)
		if id == 0 {
			return
		}
		v = vref(id)
	default:
		v = fromValue(x)
		if v.K == kNone {
			return
		}
	}
	match := func(d eav) {
		if (!hasE || d.E == e) && (!hasA || d.A == a) && (!hasV || d.V == v) {
			out = append(out, d)
		}
	}
	if hasE {
		for _, d := range sc.byE[e] {
			match(d)
		}
	} else {
		for d := range st {
			match(d)
		}
	}
	less := lessEAV
	if !hasE && hasA {
		less = lessAEV
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i], out[j]) })
	return
}

func renderQuery(cl types.Claim) string {
	return fmt.Sprintf("[%s %s %s]", renderRef(cl.E), renderRef(cl.A), renderRef(cl.V))
}

// query answers one claim every way there is and compares the answers to the filter.
func (w *world) query(snap types.Snapshot, st state, sc *schema, claim types.Claim, props string) {
	c := w.c
	want := expect(st, sc, claim)
	q := renderQuery(claim)
	c.guarded("the query "+q, func() {
		var got []eav
		seq := snap.Select(claim)
		if seq == nil {
			w.div(props+" C13 C14 C27", "%s selects a nil sequence", q)
			return
		}
		seen := map[eav]bool{}
		inWant := map[eav]bool{}
		for _, d := range want {
			inWant[d] = true
		}
		same := true
		for d := range seq {
			k := eav{d.E, d.A, fromValue(d.V)}
			if seen[k] {
				w.div(props+" C13", "%s yields %s twice", q, k)
			}
			seen[k] = true
			if !inWant[k] {
				same = false
			} else if st[k] != d.T {
				w.div(props+" C13 C18", "%s yields %s of transaction %d, which is of %d", q, k, d.T, st[k])
			}
			got = append(got, k)
			if len(got) > 4*len(st)+10 {
				w.div(props+" C13", "%s yields more datums than there are", q)
				break
			}
		}
		if !same || len(got) != len(want) {
			w.div(props+" C13", "%s yields %s where a filter over all datums yields %s", q, renderState(got), renderState(want))
		} else {
			for i := range got {
				if got[i] != want[i] {
					w.div("C14", "%s yields %s, out of the order %s", q, renderState(got), renderState(want))
					break
				}
			}
		}
		if n := snap.Count(claim); n != len(want) {
			w.div(props+" C13", "%s counts %d where a filter over all datums counts %d", q, n, len(want))
		}
		if h := snap.Has(claim); h != (len(want) > 0) {
			w.div(props+" C13", "%s has any: %v, where a filter over all datums yields %d", q, h, len(want))
		}
	})
	c.count("queries answered", 1)
	if len(want) > 0 {
		c.count("queries with results", 1)
	} else {
		c.count("queries without results", 1)
	}
	shape := fmt.Sprintf("%T %T %T", claim.E, claim.A, claim.V)
	c.feature("query " + shape)
	if len(want) > 0 {
		c.feature("found " + shape)
	}
}

// randomQuery makes up a query, of what there is or of nothing.
func (w *world) randomQuery() (cl types.Claim) {
	c := w.c
	ds := w.datums(nil)
	var d eav
	if len(ds) > 0 && !c.oneIn(6) {
		d = pick(c, ds)
	} else {
		all := w.st.sorted()
		d = pick(c, all)
	}
	other := d
	if len(ds) > 0 {
		other = pick(c, ds)
	}
	if len(w.lost) > 0 && c.oneIn(6) {
		other = pick(c, w.lost)
	}
	choose := func() eav {
		if c.oneIn(7) {
			return other
		}
		return d
	}
	bad := func() types.IDRef {
		for {
			r := pick(c, w.badRefs())
			if r == nil || r == types.IDRef(types.ID(0)) || r == types.IDRef(types.Ident("")) {
				continue
			}
			return r
		}
	}
	if c.oneIn(2) {
		cl.E = w.eref(choose().E)
		if c.oneIn(10) {
			cl.E = bad().(types.ERef)
		}
		if c.oneIn(25) {
			cl.E = pick(c, []types.ERef{types.TempID("x"), types.TxnID{}, types.TempID("")})
		}
	}
	if c.oneIn(2) {
		if a := w.sc.attrs[choose().A]; a != nil {
			cl.A = w.aref(a, 0)
		}
		switch {
		case c.oneIn(10):
			cl.A = bad()
		case c.oneIn(12): // names something, but no attribute
			cl.A = w.idref(d.E)
		}
	}
	if c.oneIn(2) {
		cl.V = w.vref(choose().V)
		switch {
		case c.oneIn(8):
			cl.V = w.vref(w.poolVal(pick(c, allKinds)))
		case c.oneIn(12):
			x := bad()
			cl.V = x.(types.VRef)
		case c.oneIn(30):
			cl.V = types.TempID("x")
		}
	}
	return
}

func init() {
	base := map[string]int{"accepted as modelled": 1000, "queries answered": 8000, "queries with results": 2000, "queries without results": 1000}
	register(&check{
		id: "C13", quick: 700, thorough: 8000, floors: base,
		rule: "random queries of every shape and form of reference over databases made by random histories, by Select, Count and Has, each compared to a filter over all datums of the snapshot; distinct by query shapes and request kinds",
		run: func(c *cse) {
			w := datumWorld(c, map[string]int{"retract": 10, "many": 10}, 0.05)
			if w == nil {
				return
			}
			if c.oneIn(80) {
				w.grow(2500 + c.IntN(3500))
				snap := w.db.Read()
				for range 150 {
					if c.failed() {
						return
					}
					cl := w.randomQuery()
					w.query(snap, w.st, w.sc, cl, "C13")
					c.sample = renderQuery(cl)
				}
				return
			}
			w.history(15+c.IntN(40), func(wr *written) {
				for range 12 {
					cl := w.randomQuery()
					w.query(wr.res.Snapshot, w.st, w.sc, cl, "C13")
					c.sample = renderQuery(cl)
				}
			})
		},
	})
	register(&check{
		id: "C10", quick: 700, thorough: 8000, floors: map[string]int{"values written": 3000, "queries answered": 10000},
		rule: "values of every type, chosen for being extreme or nearly equal, recorded in single and many valued, plain and unique attributes, read back exactly, and found by every query naming them; distinct by the values of the case",
		run:  runC10,
	})
	register(&check{
		id: "C15", quick: 700, thorough: 8000, floors: map[string]int{"accepted as modelled": 1000, "idents resolved": 10000, "names checked": 10000},
		rule: "histories of naming, renaming, stealing and retracting names, of entities and of attributes, every name ever used being resolved after each write, and used in claims and queries; distinct by request kinds and effects",
		run: func(c *cse) {
			w := datumWorld(c, map[string]int{"name": 20, "rename": 20, "unname": 20, "stealname": 15, "retractentity": 8, "declare": 2, "alterattr": 4, "redeclare": 4, "akinref": 12}, 0.2)
			if w == nil {
				return
			}
			w.history(30+c.IntN(50), func(wr *written) {
				c.sample = renderReq(wr.req)
				for _, name := range w.names {
					if name == "" {
						continue
					}
					cl := types.Claim{E: types.Ident(name)}
					w.query(wr.res.Snapshot, w.st, w.sc, cl, "C15")
					c.count("names checked", 1)
				}
				for range 4 {
					name := pick(c, w.names)
					if as := w.attrs(); len(as) > 0 && c.oneIn(2) {
						name = pick(c, as).Ident
					}
					name = akin(c, name)
					if name == "" {
						continue
					}
					if id, want := wr.res.Snapshot.ResolveIdent(types.Ident(name)), w.sc.idents[name]; id != want {
						w.div("C15", "ident %q is held by %d but resolves to %d", name, want, id)
					}
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{E: types.Ident(name)}, "C15")
					c.count("near names checked", 1)
				}
				if as := w.attrs(); len(as) > 0 {
					a := pick(c, as)
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{A: types.Ident(a.Ident)}, "C15")
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{E: types.Ident(a.Ident)}, "C15")
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{V: types.Ident(a.Ident)}, "C15")
				}
				if ds := w.named(); len(ds) > 0 {
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{V: types.Ident(pick(c, ds).V.S)}, "C15")
				}
			})
		},
	})
	register(&check{
		id: "C16", quick: 700, thorough: 8000, floors: map[string]int{"accepted as modelled": 1000, "lookups queried": 8000, "lookups of nothing queried": 3000},
		rule: "histories in which unique values are taken, given up and passed on; lookups of held, given up, never held, wrongly typed and not unique values are made in queries after each write, and in claims and retractions; distinct by request kinds and effects",
		run: func(c *cse) {
			w := datumWorld(c, map[string]int{"swap": 8, "takeover": 15, "reclaim": 8, "heldtemp": 8, "badref": 20, "akinref": 12, "badretract": 6, "retractentity": 6, "retract": 12}, 0.3)
			if w == nil {
				return
			}
			w.history(30+c.IntN(40), func(wr *written) {
				c.sample = renderReq(wr.req)
				lookup := func(ref types.LookupRef) {
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{E: ref}, "C16")
					w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{V: ref}, "C16")
					if c.oneIn(4) {
						w.query(wr.res.Snapshot, w.st, w.sc, types.Claim{A: ref}, "C16")
					}
				}
				us := w.uniqueDatums()
				for range min(6, len(us)) {
					d := pick(c, us)
					lookup(types.LookupRef{A: w.aref(w.sc.attrs[d.A], 0), V: w.raw(d.V).(types.Value)})
					c.count("lookups queried", 1)
				}
				for _, r := range w.badRefs() {
					if l, ok := r.(types.LookupRef); ok {
						lookup(l)
						c.count("lookups of nothing queried", 1)
					}
				}
			})
		},
	})
	datumCheck("C12", 900, 50, map[string]int{"system": 80, "name": 3, "alterattr": 4, "badattr": 4}, 0.7,
		map[string]int{"rejected for system": 1500, "accepted as modelled": 800}, ", the system's datums being compared after each to a list written by hand")
	datumCheck("C17", 900, 50, map[string]int{"retractentity": 40, "badretract": 20, "temprefs": 12, "new": 25, "name": 6, "retractabsent": 0, "unify": 1}, 0.3,
		map[string]int{"op retractentity": 2000, "rejected for retraction": 300}, "")
	datumCheck("C18", 900, 60, map[string]int{"restate": 40, "reclaim": 20, "retract": 20, "redeclare": 5, "heldtemp": 8, "unify": 5, "txn": 6}, 0.3,
		map[string]int{"op restate": 3000, "accepted as modelled": 3000}, "")
}

// runC10 writes values that are easily confused and reads each of them back.
func runC10(c *cse) {
	w := datumWorld(c, nil, 0)
	if w == nil {
		return
	}
	for range 3 {
		a := w.attrWhere(nil)
		vs := w.confusable(a.K)
		c.feature(fmt.Sprint(a.Ident, vs))
		var es []types.ID
		holders := map[val]types.ID{}
		for _, v := range vs {
			var e types.ERef = types.TempID("t")
			if len(es) > 0 && c.oneIn(2) {
				e = pick(c, es)
			}
			if h, held := w.sc.holder[av{a.ID, v}]; held {
				if holders[v] == 0 {
					continue
				}
				e = h
			}
			raw := w.raw(v)
			claims := []types.Claim{{E: e, A: w.aref(a, 0), V: raw}}
			for c.oneIn(3) { // the same value otherwise
				claims = append(claims, types.Claim{E: e, A: w.aref(a, 0), V: w.raw(v)})
			}
			wr := w.write(types.Request{Claims: claims})
			if !wr.accepted || c.failed() {
				return
			}
			id, ok := e.(types.ID)
			if !ok {
				id = wr.res.TempIDs["t"]
				es = append(es, id)
			}
			if !a.Many {
				for o, h := range holders {
					if h == id {
						delete(holders, o)
					}
				}
			}
			holders[v] = id
			c.count("values written", 1)
			c.sample = fmt.Sprintf("%s = %s", a.Ident, v)
			c.guarded("reading a value back", func() {
				found := 0
				for d := range wr.res.Snapshot.Select(types.Claim{E: id, A: a.ID}) {
					if why := notExactly(d.V, raw, v); why == "" {
						found++
					} else if fromValue(d.V) == v {
						w.div("C10", "%s of %s reads back as %s: %s", v, a.Ident, renderRef(d.V), why)
					}
				}
				if found != 1 {
					w.div("C10", "%s of %s reads back %d times", v, a.Ident, found)
				}
			})
		}
		snap := w.db.Read()
		for _, v := range append(vs, w.confusable(a.K)...) {
			for range 2 { // different renderings of one value
				raw := w.raw(v)
				w.query(snap, w.st, w.sc, types.Claim{A: a.ID, V: raw}, "C10")
				w.query(snap, w.st, w.sc, types.Claim{V: raw}, "C10")
				if len(es) > 0 {
					e := pick(c, es)
					w.query(snap, w.st, w.sc, types.Claim{E: e, V: raw}, "C10")
					w.query(snap, w.st, w.sc, types.Claim{E: e, A: a.ID, V: raw}, "C10")
				}
				if h := holders[v]; h != 0 {
					w.query(snap, w.st, w.sc, types.Claim{E: h, A: a.ID, V: raw}, "C10")
				}
				if a.Unique != 0 {
					w.query(snap, w.st, w.sc, types.Claim{E: types.LookupRef{A: a.ID, V: raw.(types.Value)}}, "C10")
				}
			}
		}
		w.query(snap, w.st, w.sc, types.Claim{A: a.ID}, "C10")
		// Values are taken away by name too.
		for _, v := range vs {
			if h := holders[v]; h != 0 && c.oneIn(2) {
				w.write(types.Request{Claims: []types.Claim{{E: h, A: a.ID, V: w.raw(v), Retract: true}}})
			}
		}
		if c.failed() {
			return
		}
	}
}

var _ = sys.DbIdent
