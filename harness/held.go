package main

import (
	"fmt"
	"iter"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	public "github.com/dball/destructive/pkg/database"

	"github.com/dball/destructive/internal/structs/assemblers"
	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// seen is a struct over the attributes that declareAttrs may declare.
type seen struct {
	ID    uint64     `attr:"sys/db/id"`
	Ident string     `attr:"sys/db/ident"`
	S     string     `attr:"str/one/plain"`
	SI    *string    `attr:"str/one/identity"`
	SV    string     `attr:"str/one/value"`
	N     int        `attr:"int/one/plain"`
	NI    *int       `attr:"int/one/identity"`
	F     *float64   `attr:"float/one/plain"`
	B     bool       `attr:"bool/one/plain"`
	T     *time.Time `attr:"inst/one/plain"`
	R     *seen      `attr:"ref/one/plain"`
	RI    *other     `attr:"ref/one/identity"`
	None  string
}

type other struct {
	ID uint64 `attr:"sys/db/id"`
	S  string `attr:"str/one/plain"`
	V  int    `attr:"int/one/value"`
	R  *seen  `attr:"ref/one/plain"`
}

// renderGo renders any Go value, telling values apart as the database does, and which
// pointers are the same.
func renderGo(x any) string {
	var b strings.Builder
	ptrs := map[any]int{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 200 {
			b.WriteString("...")
			return
		}
		switch v.Kind() {
		case reflect.Invalid:
			b.WriteString("nil")
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			type key struct {
				p uintptr
				t reflect.Type
			}
			k := key{v.Pointer(), v.Type()}
			if n, ok := ptrs[k]; ok && v.Elem().Kind() == reflect.Struct && v.Elem().NumField() > 0 {
				fmt.Fprintf(&b, "&%d", n)
				return
			}
			ptrs[k] = len(ptrs)
			fmt.Fprintf(&b, "#%d:", ptrs[k])
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			if t, ok := v.Interface().(time.Time); ok {
				fmt.Fprintf(&b, "@%d%s", t.UnixMilli(), t.Location())
				return
			}
			fmt.Fprintf(&b, "%s{", v.Type().Name())
			for i := range v.NumField() {
				if !v.Type().Field(i).IsExported() {
					continue
				}
				fmt.Fprintf(&b, " %s:", v.Type().Field(i).Name)
				walk(v.Field(i), depth+1)
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("[")
			for i := range v.Len() {
				walk(v.Index(i), depth+1)
				b.WriteString(", ")
			}
			b.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			// A key may be no number, which looks up nothing.
			type entry struct {
				k string
				v reflect.Value
			}
			var entries []entry
			for it := v.MapRange(); it.Next(); {
				entries = append(entries, entry{renderGo(it.Key().Interface()), it.Value()})
			}
			sort.Slice(entries, func(i, j int) bool { return entries[i].k < entries[j].k })
			b.WriteString("map[")
			for _, e := range entries {
				b.WriteString(e.k + ": ")
				walk(e.v, depth+1)
				b.WriteString(", ")
			}
			b.WriteString("]")
		case reflect.Float64:
			f := v.Float()
			if f != f {
				b.WriteString("NaN")
			} else if f == 0 {
				b.WriteString("0.0")
			} else {
				fmt.Fprintf(&b, "%x", math.Float64bits(f))
			}
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprintf(&b, "%s", v.Type())
		default:
			fmt.Fprintf(&b, "%v", v.Interface())
		}
	}
	walk(reflect.ValueOf(x), 0)
	return b.String()
}

// observation is what a snapshot answered when first asked.
type observation struct {
	when   string
	snap   types.Snapshot
	all    []row
	claims []types.Claim
	rows   [][]row
	counts []int
	idents map[types.Ident]types.ID
	attrs  map[types.ID]types.Ident
	loads  map[types.ID]string
	loaded map[types.ID]string
	// a result which was partly consumed when later writes came
	next func() (types.Datum, bool)
	stop func()
	left []row
	use  sync.Mutex // of next
}

func load[T any](a models.Analyzer, snap types.Snapshot, id types.ID) string {
	x, err := assemblers.Assemble[T](assemblers.NewAssembler(a, snap), id)
	if err != nil {
		return "error " + err.Error()
	}
	return renderGo(x)
}

// observe asks a snapshot of everything, and remembers the answers.
func (w *world) observe(snap types.Snapshot, when string, a models.Analyzer) *observation {
	c := w.c
	o := &observation{when: when, snap: snap, idents: map[types.Ident]types.ID{}, attrs: map[types.ID]types.Ident{}, loads: map[types.ID]string{}, loaded: map[types.ID]string{}}
	if !c.guarded("reading a snapshot "+when, func() {
		all := rows(snap.Select(types.Claim{}))
		o.all = all
		for range 4 {
			o.claims = append(o.claims, w.randomQuery())
		}
		for _, cl := range o.claims {
			o.rows = append(o.rows, rows(snap.Select(cl)))
			o.counts = append(o.counts, snap.Count(cl))
		}
		for _, n := range w.names {
			o.idents[types.Ident(n)] = snap.ResolveIdent(types.Ident(n))
		}
		for _, d := range all {
			if d.A == sys.DbIdent && d.E >= sys.FirstUserID {
				o.idents[types.Ident(d.V.S)] = snap.ResolveIdent(types.Ident(d.V.S))
			}
		}
		for i := range 12 {
			n := types.Ident(fmt.Sprintf("new/%d", i))
			o.idents[n] = snap.ResolveIdent(n)
		}
		for id := types.ID(1); id <= 20; id++ {
			o.attrs[id] = snap.ResolveAttrIdent(id)
		}
		for id := sys.FirstUserID; id <= w.highest+8; id++ {
			if id > sys.FirstUserID+60 && id+40 < w.highest && !c.oneIn(4) {
				continue
			}
			o.attrs[id] = snap.ResolveAttrIdent(id)
		}
		for range 4 {
			if len(all) == 0 {
				break
			}
			id := pick(c, all).E
			o.loads[id] = load[seen](a, snap, id)
			o.loaded[id] = load[other](a, snap, id)
		}
		if len(all) > 0 && c.oneIn(2) {
			cl := pick(c, o.claims)
			if c.oneIn(3) {
				cl = types.Claim{}
			}
			whole := rows(snap.Select(cl))
			o.next, o.stop = iter.Pull(snap.Select(cl))
			k := 0
			if len(whole) > 0 {
				k = c.IntN(len(whole))
			}
			for range k {
				if _, ok := o.next(); !ok {
					c.violated("a result of %d datums ended early", len(whole))
				}
			}
			o.left = whole[k:]
		}
		c.count("observations made", 1)
	}) {
		return nil
	}
	return o
}

// verify asks again.
func (o *observation) verify(c *cse, a models.Analyzer) {
	c.count("snapshots asked again", 1)
	c.guarded("reading again the snapshot "+o.when, func() {
		if s := sameRows(o.all, rows(o.snap.Select(types.Claim{}))); s != "" {
			c.violated("the snapshot %s changed: %s", o.when, s)
			return
		}
		for i, cl := range o.claims {
			if s := sameRows(o.rows[i], rows(o.snap.Select(cl))); s != "" {
				c.violated("the snapshot %s answers %s differently: %s", o.when, renderQuery(cl), s)
			}
			if n := o.snap.Count(cl); n != o.counts[i] {
				c.violated("the snapshot %s counted %d for %s, and now %d", o.when, o.counts[i], renderQuery(cl), n)
			}
			if h := o.snap.Has(cl); h != (o.counts[i] > 0) {
				c.violated("the snapshot %s counted %d for %s, and now has any: %v", o.when, o.counts[i], renderQuery(cl), h)
			}
			c.count("queries asked again", 1)
		}
		for n, id := range o.idents {
			if got := o.snap.ResolveIdent(n); got != id {
				c.violated("the snapshot %s resolved %q to %d, and now to %d", o.when, n, id, got)
			}
		}
		for id, n := range o.attrs {
			if got := o.snap.ResolveAttrIdent(id); got != n {
				c.violated("the snapshot %s resolved attribute %d to %q, and now to %q", o.when, id, n, got)
			}
		}
		c.count("idents asked again", len(o.idents)+len(o.attrs))
		for id, s := range o.loads {
			if got := load[seen](a, o.snap, id); got != s {
				c.violated("the snapshot %s loaded %s, and now %s", o.when, s, got)
			}
			if got := load[other](a, o.snap, id); got != o.loaded[id] {
				c.violated("the snapshot %s loaded %s, and now %s", o.when, o.loaded[id], got)
			}
			c.count("structs loaded again", 1)
		}
	})
	o.finish(c)
}

// finish consumes the rest of a result, once.
func (o *observation) finish(c *cse) {
	o.use.Lock()
	defer o.use.Unlock()
	if o.next == nil {
		return
	}
	defer o.stop()
	c.guarded("resuming a result of the snapshot "+o.when, func() {
		var got []row
		for {
			d, ok := o.next()
			if !ok {
				break
			}
			got = append(got, rowOf(d))
		}
		if s := sameRows(o.left, got); s != "" {
			c.violated("a result of the snapshot %s which was resumed differs: %s", o.when, s)
		}
		c.count("results resumed", 1)
	})
	o.next = nil
}

func runC01(c *cse) {
	if c.n%4 == 3 {
		c.feature("structs")
		heldStructs(c)
		return
	}
	w := datumWorld(c, map[string]int{"declare": 4, "name": 4, "rename": 4, "unname": 3, "stealname": 3, "replace": 8, "retractentity": 5, "redeclare": 2}, 0.25)
	if w == nil {
		return
	}
	analyzer := models.BuildCachingAnalyzer()
	var held []*observation
	hold := func(snap types.Snapshot, when string) {
		if o := w.observe(snap, when, analyzer); o != nil {
			held = append(held, o)
		}
	}
	c.guarded("Read", func() { hold(w.db.Read(), "of the declarations") })
	// One goroutine first, so that a change is pinned to the write which made it.
	w.history(10+c.IntN(15), func(wr *written) {
		for i, o := range held {
			if i >= len(held)-3 || c.oneIn(6) {
				o.verify(c, analyzer)
			}
		}
		if c.oneIn(2) {
			when := fmt.Sprintf("of the response to write %d", w.steps)
			if !wr.accepted {
				when += ", which was rejected"
				c.count("snapshots of rejections", 1)
			}
			hold(wr.res.Snapshot, when)
		} else {
			c.guarded("Read", func() { hold(w.db.Read(), fmt.Sprintf("read after write %d", w.steps)) })
		}
	})
	if c.failed() {
		return
	}
	sequential := len(held)
	// Then several, while others ask.
	writers, readers := 2+c.IntN(3), 1+c.IntN(3)
	forks := make([]*world, writers+readers)
	for i := range forks {
		forks[i] = w.fork(nil)
	}
	kept := make([][]*observation, writers+readers)
	per := 4 + c.IntN(8)
	c.together(writers+readers, func(i int, c *cse) {
		f := forks[i]
		f.c = c
		if i >= writers {
			for k := range per {
				o := held[c.IntN(len(held))]
				o.verify(c, analyzer)
				var snap types.Snapshot
				if !c.guarded("Read", func() { snap = f.db.Read() }) {
					return
				}
				if o := f.observe(snap, fmt.Sprintf("%d read by goroutine %d", k, i), analyzer); o != nil {
					kept[i] = append(kept[i], o)
				}
				for _, o := range kept[i] {
					o.verify(c, analyzer)
				}
				if c.failed() {
					return
				}
			}
			return
		}
		for k := range per {
			req := f.request()
			c.log("write %s", renderReq(req))
			var res types.Response
			if !c.guarded("Write", func() { res = f.db.Write(req) }) || res.Snapshot == nil {
				return
			}
			o := f.observe(res.Snapshot, fmt.Sprintf("of the response to write %d by goroutine %d", k, i), analyzer)
			if o == nil {
				return
			}
			kept[i] = append(kept[i], o)
			st, _ := dump(res.Snapshot)
			f.see(st)
			c.count("concurrent writes", 1)
			for _, o := range kept[i] {
				if c.oneIn(2) {
					o.verify(c, analyzer)
				}
			}
			if c.failed() {
				return
			}
		}
	})
	if c.failed() {
		return
	}
	for _, l := range append(kept, held) {
		for _, o := range l {
			o.verify(c, analyzer)
		}
	}
	c.sample = fmt.Sprintf("%d snapshots held through a history of %d writes, and then with more while %d goroutines wrote and %d read", sequential, w.steps, writers, readers)
}

type (
	member struct {
		Code string `attr:"band/code,identity"`
		Name string `attr:"band/name"`
		Age  int    `attr:"band/age"`
	}
	band struct {
		ID      uint64             `attr:"sys/db/id"`
		Key     string             `attr:"band/key,identity"`
		Members map[string]*member `attr:"band/members,key=band/name"`
		Row     []member           `attr:"band/row"`
	}
	ages struct {
		Members map[int]member `attr:"band/members,key=band/age"`
	}
)

// heldStructs holds snapshots of a database of structs.
func heldStructs(c *cse) {
	var db public.Database
	if !c.guarded("NewDatabase", func() { db = public.NewDatabase(public.Config{Degree: pick(c, degrees)}) }) {
		return
	}
	type held struct {
		snap *public.Snapshot
		ts   public.TypedSnapshot[pair]
		hs   public.TypedSnapshot[half]
		bs   public.TypedSnapshot[band]
		as   public.TypedSnapshot[ages]
		ids  []uint64
		was  []string
	}
	find := func(h *held, id uint64) string {
		return renderGo(h.ts.Find(id)) + renderGo(h.hs.Find(id)) + renderGo(h.bs.Find(id)) + renderGo(h.as.Find(id))
	}
	var mu sync.Mutex
	var ids []uint64
	hold := func(c *cse, snap *public.Snapshot) *held {
		h := &held{snap: snap}
		if !c.guarded("Find", func() {
			var err, err2, err3, err4 error
			h.ts, err = public.BuildTypedSnapshot[pair](snap)
			h.hs, err2 = public.BuildTypedSnapshot[half](snap)
			h.bs, err3 = public.BuildTypedSnapshot[band](snap)
			h.as, err4 = public.BuildTypedSnapshot[ages](snap)
			if err != nil || err2 != nil || err3 != nil || err4 != nil {
				c.violated("typed snapshots: %v %v %v %v", err, err2, err3, err4)
			}
			mu.Lock()
			h.ids = append(append([]uint64{}, ids...), uint64(sys.DbIdent), 99999)
			mu.Unlock()
			if len(h.ids) > 12 {
				h.ids = h.ids[len(h.ids)-12:]
			}
			for _, id := range h.ids {
				h.was = append(h.was, find(h, id))
			}
		}) {
			return nil
		}
		return h
	}
	verify := func(c *cse, h *held) {
		c.guarded("Find", func() {
			for i, id := range h.ids {
				if got := find(h, id); got != h.was[i] {
					c.violated("a snapshot held %s as entity %d, and now %s", h.was[i], id, got)
				}
				c.count("structs found again", 1)
			}
		})
	}
	per := 5 + c.IntN(10)
	n := 2 + c.IntN(4)
	kept := make([][]*held, n)
	c.together(n, func(i int, c *cse) {
		for k := range per {
			p := &pair{Key: fmt.Sprint("key", c.IntN(5)), Left: c.IntN(100), Right: k, Rate: float64(i)}
			if c.oneIn(3) {
				p.Mate = &pair{Key: fmt.Sprint("key", c.IntN(5)), Left: k}
				if p.Mate.Key == p.Key {
					p.Mate = p
				}
			}
			req := public.Request{Assertions: []any{p}}
			if c.oneIn(2) {
				// The members of bands get other names and ages, which others of theirs have.
				some := func() *member {
					return &member{Code: fmt.Sprint("code", c.IntN(8)), Name: fmt.Sprint("name", c.IntN(3)), Age: c.IntN(3)}
				}
				b := &band{Key: fmt.Sprint("band", c.IntN(3)), Members: map[string]*member{}}
				codes := map[string]bool{}
				for range c.IntN(5) {
					m := some()
					if !codes[m.Code] && b.Members[m.Name] == nil {
						b.Members[m.Name] = m
						codes[m.Code] = true
					}
				}
				req.Assertions = append(req.Assertions, b)
				for range c.IntN(3) {
					if m := some(); !codes[m.Code] {
						req.Assertions = append(req.Assertions, m)
						codes[m.Code] = true
					}
				}
			}
			switch {
			case c.oneIn(6):
				mu.Lock()
				if len(ids) > 0 {
					req = public.Request{Retractions: []any{pair{ID: pick(c, ids)}}}
				}
				mu.Unlock()
				if len(req.Retractions) > 0 {
					// The key would also constrain the entity.
					type only struct {
						ID uint64 `attr:"sys/db/id"`
					}
					req.Retractions[0] = only{req.Retractions[0].(pair).ID}
				}
			case c.oneIn(6):
				req.Assertions = append(req.Assertions, &pair{ID: 1 << 40, Key: "no"})
			}
			var res public.Response
			if !c.guarded("Write", func() { res = db.Write(req) }) || res.Snap == nil {
				c.violated("%s: error %v and no snapshot", renderGo(req), res.Error)
				return
			}
			mu.Lock()
			ids = append(ids, res.IDs...)
			if len(ids) > 20 {
				ids = ids[len(ids)-20:]
			}
			mu.Unlock()
			for _, s := range []*public.Snapshot{res.Snap, db.Read()} {
				if h := hold(c, s); h != nil {
					kept[i] = append(kept[i], h)
				}
			}
			for _, h := range kept[i] {
				if c.oneIn(3) {
					verify(c, h)
				}
			}
			if c.failed() {
				return
			}
		}
	})
	for _, l := range kept {
		for _, h := range l {
			verify(c, h)
		}
	}
	c.sample = fmt.Sprintf("%d goroutines each wrote %d structs, and held the snapshots", n, per)
	c.feature(fmt.Sprintf("%d writers", n))
}

func init() {
	register(&check{
		id: "C01", quick: 240, thorough: 8000, raceQuick: 40, raceThorough: 120,
		rule:   "snapshots from reads and from responses are asked for every datum, some queries, idents, structs and part of a result, and asked again after and during later writes, accepted and rejected; a quarter of the cases do so with structs; distinct by the kinds of writes and rejections",
		floors: map[string]int{"observations made": 1000, "snapshots asked again": 4000, "results resumed": 500, "structs loaded again": 4000, "structs found again": 2000, "concurrent writes": 300, "snapshots of rejections": 50},
		run:    runC01,
	})
}
