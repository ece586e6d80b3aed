package main

import (
	"reflect"

	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// Structs recorded and loaded, under observation.

func init() {
	register(&check{
		id: "C20", quick: 4800, thorough: 60000,
		rule: "a fresh database in which one graph of one of the struct types is recorded and loaded back; nontrivial if anything was recorded",
		floors: map[string]int{
			"graphs compared": 900, "structs identified": 3000, "struct datums compared": 10000,
		},
		run: runRoundTrip,
	})
	register(&check{
		id: "C22", quick: 900, thorough: 12000,
		rule: "a history of writes of structs with ids and identities, extant, shared, conflicting and unknown; nontrivial if some were accepted and others rejected",
		floors: map[string]int{
			"struct writes accepted": 500, "struct writes rejected": 300, "structs bound to extant entities": 100,
		},
		run: func(c *cse) { runHistory(c, "C22") },
	})
	register(&check{
		id: "C23", quick: 900, thorough: 12000,
		rule: "writes of graphs which share pointers and form cycles, and loads of all they reach; nontrivial if any pointer was shared",
		floors: map[string]int{
			"pointers shared": 500, "graphs loaded": 500, "structs identified": 2000,
		},
		run: func(c *cse) { runHistory(c, "C23") },
	})
	register(&check{
		id: "C25", quick: 900, thorough: 12000,
		rule: "a history of writes of several structs and retractions at once, some of them invalid; nontrivial if some were accepted and others rejected",
		floors: map[string]int{
			"struct writes accepted": 400, "struct writes rejected": 300, "structs retracted": 100, "malformed requests": 100,
		},
		run: func(c *cse) { runHistory(c, "C25") },
	})
	register(&check{
		id: "C26", quick: 900, thorough: 12000,
		rule: "a history of writes of structs with nil pointers, empty fields and untagged fields, new and updating; nontrivial if any was accepted",
		floors: map[string]int{
			"struct writes accepted": 800, "structs bound to extant entities": 50, "struct datums compared": 10000, "structs loaded": 500,
		},
		run: func(c *cse) { runHistory(c, "C26") },
	})
	register(&check{
		id: "C21", quick: 500, thorough: 10000,
		rule: "a history of writes of structs, in which every entity is loaded as various struct types; nontrivial if any was loaded",
		floors: map[string]int{
			"structs loaded": 10000, "graphs loaded": 2000, "entities without facts": 1000, "databases unchanged by loads": 100,
		},
		run: func(c *cse) { runHistory(c, "C21") },
	})
}

func runRoundTrip(c *cse) {
	if c.oneIn(60) {
		runScale(c, c.IntN(5))
		return
	}
	w := newStructWorld(c)
	if w == nil {
		return
	}
	f := w.fill
	f.begin()
	f.share = float64(c.IntN(3)) * 0.15
	f.empty = 0.15 + 0.4*c.Float64()
	f.colls = 0.3 + 0.6*c.Float64()
	f.junk = c.oneIn(2)
	fam := pick(c, families)
	depth := 1 + c.IntN(5)
	x := f.root(fam.typ, depth)
	c.trivial = true
	wr := w.write(public.Request{Assertions: []any{x}})
	if wr == nil || !wr.accepted || len(wr.res.IDs) != 1 || c.failed() || wr.res.IDs[0] == 0 {
		return
	}
	c.trivial = false
	c.feature(fam.typ.Name())
	c.feature(renderGo(x))
	c.sample = trim(renderGo(x), 300)
	// A ref to a struct with nothing to record is to no entity.
	for _, t := range wr.o.temps {
		if _, ok := wr.ids[t]; !ok {
			c.count("graphs with nothing in places skipped", 1)
			return
		}
	}
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	want := shape{given: true}.render(v, 6)
	id := wr.res.IDs[0]
	for i, snap := range []*public.Snapshot{wr.res.Snap, w.db.Read()} {
		var got any
		var err error
		if !c.guarded("loading a "+fam.typ.Name(), func() { got, err = fam.find(c, snap, id) }) {
			return
		}
		if err != nil {
			c.violated("a snapshot typed as %s: %v", fam.typ, err)
			return
		}
		if got == nil {
			c.violated("%s was recorded as %d, which loads as nothing", trim(renderGo(x), 1000), id)
			return
		}
		have := shape{}.render(reflect.ValueOf(got).Elem(), 6)
		if have != want {
			c.violated("%s was recorded\n   %s\nbut loads as\n   %s", trim(renderGo(x), 500), around(want, have), around(have, want))
			return
		}
		for _, t := range tagsOf(fam.typ) {
			if t.ident == "sys/db/id" && reflect.ValueOf(got).Elem().Field(t.index).Uint() != id {
				c.violated("%s was recorded as %d, but its id loads otherwise: %s", trim(renderGo(x), 500), id, trim(renderGo(got), 500))
			}
		}
		c.count("graphs compared", 1)
		_ = i
	}
}

func identifies(typ reflect.Type) bool {
	for _, t := range tagsOf(typ) {
		if t.identity {
			return true
		}
	}
	return false
}

func runHistory(c *cse, id string) {
	if (id == "C22" || id == "C23" || id == "C25") && c.oneIn(40) {
		switch id {
		case "C23":
			runScale(c, pick(c, []int{0, 4}))
		default:
			runScale(c, 3)
		}
		return
	}
	w := newStructWorld(c)
	if w == nil {
		return
	}
	f := w.fill
	f.reuse, f.update, f.strange, f.share = 0.05, 0.15, 0.01, 0.1
	f.empty, f.colls = 0.3, 0.25
	steps := 4 + c.IntN(4)
	depth := 1 + c.IntN(2)
	most := 2
	loads := 4 // families per entity
	switch id {
	case "C22":
		f.reuse, f.update, f.strange = 0.3+0.5*c.Float64(), 0.3, 0.01
		f.colls = 0.1
		steps += 4
	case "C23":
		f.share = 0.3 + 0.5*c.Float64()
		f.reuse = 0.1 * float64(c.IntN(2))
		f.update = 0.1
		f.empty = 0.2
		f.colls = 0.5
		depth = 2 + c.IntN(3)
		steps = 1 + c.IntN(3)
		most = 3
	case "C25":
		most = 5
		f.reuse = 0.08
		f.strange = 0.02
	case "C26":
		f.empty = 0.4 + 0.4*c.Float64()
		f.update = 0.4
		f.reuse = 0.4
		f.strange = 0
		f.junk = true
	case "C21":
		loads = 12
	}
	if c.oneIn(90) {
		steps, depth, most, loads = 60+c.IntN(120), 0, 1, 1
		c.count("long histories", 1)
	}
	// Few types meet more often.
	var own []*family
	for range 3 + c.IntN(6) {
		fam := pick(c, families)
		if (id == "C22" || id == "C26") && c.chance(0.8) {
			for !identifies(fam.typ) {
				fam = pick(c, families)
			}
		}
		own = append(own, fam)
	}
	type past struct {
		snap *public.Snapshot
		x    *expected
		ids  []types.ID
	}
	var pasts []past
	accepted, rejected := 0, 0
	for range steps {
		if c.failed() {
			return
		}
		f.begin()
		var req public.Request
		malform := ""
		n := 1 + c.IntN(most)
		if f.wide && c.oneIn(2) {
			n = 9 + c.IntN(120)
			c.count("large requests", 1)
		}
		for range n {
			if f.left < 0 {
				break
			}
			fam := pick(c, own)
			if c.oneIn(4) {
				fam = pick(c, families)
			}
			if p := f.pointers[fam.typ]; len(p) > 0 && c.chance(f.share) {
				req.Assertions = append(req.Assertions, pick(c, p).Interface())
				continue
			}
			req.Assertions = append(req.Assertions, f.root(fam.typ, depth))
			c.feature(fam.typ.Name())
		}
		if id == "C25" || c.oneIn(6) {
			for range c.IntN(3) {
				if x := w.retractable(own); x != nil {
					req.Retractions = append(req.Retractions, x)
				}
			}
			if c.oneIn(4) {
				req.Assertions = nil
			}
		}
		var wr *structWrite
		if id == "C25" && c.oneIn(3) {
			var bad any
			bad, malform = w.malformed()
			wr = w.writeMalformed(req, bad, malform)
		} else {
			wr = w.write(req)
		}
		if wr == nil || c.failed() {
			continue
		}
		if wr.accepted {
			accepted++
			for _, e := range wr.roots {
				if _, is := e.(types.ID); is {
					c.count("structs with extant ids", 1)
				}
			}
			c.count("structs retracted", len(req.Retractions))
		} else {
			rejected++
		}
		if id == "C22" || id == "C25" && !c.oneIn(4) || wr.res.Snap == nil {
			continue
		}
		// Load what there is, in the snapshots to date.
		pasts = append(pasts, past{wr.res.Snap, w.expected(), w.ids()})
		look := []past{pasts[len(pasts)-1]}
		if len(pasts) > 1 && id == "C21" {
			look = append(look, pick(c, pasts))
		}
		for _, p := range look {
			w.loads(p.snap, p.x, p.ids, loads, id)
		}
		if id == "C21" && !c.failed() {
			st, attrs, ok := w.read(w.db.Read())
			if !ok {
				return
			}
			m, e, _ := diffStates(w.st, st, false)
			n, g, _ := diffStates(w.attrs, attrs, false)
			if len(m)+len(e)+len(n)+len(g) > 0 {
				c.violated("after loads the database lacks %s %s and has %s %s besides", w.render(m), w.render(n), w.render(e), w.render(g))
			}
			c.count("databases unchanged by loads", 1)
		}
	}
	c.trivial = accepted == 0 || rejected == 0 && (id == "C22" || id == "C25")
	if len(c.trace) > 0 {
		c.sample = trim(c.trace[0], 300)
	}
}

// loads finds entities as struct types.
func (w *structWorld) loads(snap *public.Snapshot, x *expected, ids []types.ID, n int, props string) {
	c := w.c
	depth := 3
	if props == "C23" {
		depth = 7
	}
	for k := range 40 {
		var id types.ID
		switch {
		case k < 30 && len(ids) > 0:
			id = pick(c, ids)
		case c.oneIn(2):
			id = types.ID(c.IntN(int(w.highest) + 40))
			if id < 1000 {
				id = w.highest + 1 + types.ID(c.IntN(50))
			}
		default:
			id = pick(c, []types.ID{0, w.highest + 10, 1 << 40, 1<<63 + 7, 1<<64 - 1})
		}
		for range n {
			if w.load(snap, x, pick(c, families), id, depth, props); c.failed() {
				return
			}
		}
	}
}

// retractable is a struct which denotes an entity, or not.
func (w *structWorld) retractable(own []*family) any {
	c := w.c
	fam := pick(c, own)
	v := reflect.New(fam.typ)
	hasID, hasUnique := -1, []tagged{}
	for _, t := range tagsOf(fam.typ) {
		if t.ident == "sys/db/id" {
			hasID = t.index
		} else if t.unique {
			hasUnique = append(hasUnique, t)
		}
	}
	ids := w.ids()
	if len(ids) == 0 {
		return nil
	}
	e := pick(c, ids)
	if hasID < 0 && len(hasUnique) == 0 {
		if !c.oneIn(20) {
			return &lite{ID: uint64(e)}
		}
		return v.Interface() // which denotes nothing
	}
	heldOf := func(t tagged) (held []eav) {
		for _, d := range w.st.sorted() {
			if d.A == universe[t.ident].ID {
				held = append(held, d)
			}
		}
		return
	}
	if len(hasUnique) > 0 && c.chance(0.8) {
		if held := heldOf(pick(c, hasUnique)); len(held) > 0 {
			e = pick(c, held).E
		}
	}
	if hasID >= 0 {
		v.Elem().Field(hasID).SetUint(uint64(e))
		if c.oneIn(20) {
			v.Elem().Field(hasID).SetUint(0)
		} else if c.oneIn(12) {
			// Another entity than the rest names, perhaps.
			v.Elem().Field(hasID).SetUint(uint64(pick(c, ids)))
		}
	}
	for _, t := range hasUnique {
		field := v.Elem().Field(t.index)
		if field.Kind() == reflect.Pointer {
			// A nil pointer names nothing.
			field.Set(reflect.New(field.Type().Elem()))
			field = field.Elem()
		}
		held := heldOf(t)
		set := false
		for _, d := range held {
			if d.E == e {
				setScalarTo(field, d.V)
				set = true
			}
		}
		if len(held) > 0 && (!set && c.oneIn(3) || c.oneIn(12)) {
			setScalarTo(field, pick(c, held).V)
		}
	}
	if c.oneIn(2) {
		return v.Interface()
	}
	return v.Elem().Interface()
}

// Struct types which no database takes.
type (
	badChan struct {
		A int      `attr:"u/int/0"`
		B chan int `attr:"bad/chan"`
	}
	badTag struct {
		A int `attr:"bad/tag,bogus"`
	}
	badID struct {
		ID string `attr:"sys/db/id"`
		N  int    `attr:"bad/id"`
	}
	badFunc struct {
		N int    `attr:"bad/n"`
		F func() `attr:"bad/func"`
	}
	badWidth struct {
		N int32 `attr:"bad/int32"`
	}
	badDeep struct {
		S string    `attr:"bad/s"`
		B *badChan  `attr:"bad/deep"`
		C []badChan `attr:"bad/deeper"`
	}
	badSelf struct {
		A int `attr:"bad/self"`
		B int `attr:"bad/self2,unique,identity,what"`
	}
	badOther struct {
		A int     `attr:"bad/same"`
		B knot    `attr:"bad/knot"`
		C []*knot `attr:"bad/pointers,value=u/str/0"`
	}
	badClash struct {
		A int    `attr:"bad/twice"`
		B string `attr:"bad/twice2"`
		C clash  `attr:"bad/clash"`
	}
	clash struct {
		A string `attr:"bad/twice"`
	}
	badSystem struct {
		N int    `attr:"bad/fine"`
		S string `attr:"sys/mine"`
	}
)

// malformed is something no database can record or retract, and why.
func (w *structWorld) malformed() (any, string) {
	c := w.c
	n := 7
	k := knot{Name: "malformed"}
	pk := &k
	all := []struct {
		x   any
		why string
	}{
		{nil, "nil"},
		{7, "a number"},
		{"text", "a string"},
		{[]knot{{Name: "slice"}}, "a slice"},
		{map[string]knot{}, "a map"},
		{(*knot)(nil), "a nil pointer"},
		{(*ring)(nil), "a nil pointer"},
		{&n, "a pointer to a number"},
		{&pk, "a pointer to a pointer"},
		{func() {}, "a function"},
		{make(chan knot), "a channel"},
		{[2]knot{}, "an array"},
		{badChan{A: 1}, "a tagged channel"},
		{&badTag{A: 1}, "an unknown directive"},
		{badID{N: 2}, "an id which is a string"},
		{badFunc{}, "a tagged function"},
		{badWidth{N: 1}, "an int32"},
		{badDeep{S: "deep"}, "a tagged channel deep within"},
		{&badSelf{}, "an unknown directive among others"},
		{badOther{}, "a slice of pointers with a value"},
		{badClash{}, "two types of one attribute"},
		{badSystem{}, "an attribute of the system's namespace"},
	}
	m := pick(c, all)
	return m.x, m.why
}

// writeMalformed makes a request some of which cannot be recorded.
func (w *structWorld) writeMalformed(req public.Request, bad any, why string) *structWrite {
	c := w.c
	at := c.IntN(len(req.Assertions) + 1)
	req.Assertions = append(req.Assertions[:at:at], append([]any{bad}, req.Assertions[at:]...)...)
	wr := &structWrite{req: req, malform: why, pre: w.st, o: &outcome{reject: map[reason]string{"malformed": why}}}
	c.count("malformed requests", 1)
	what := trim(renderStructs(req), 300)
	c.log("write %s", what)
	if !c.guarded("Write", func() { wr.res = w.db.Write(req) }) {
		return wr
	}
	w.observe(wr, what)
	return wr
}
