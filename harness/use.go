package main

import (
	"fmt"
	"iter"
	"reflect"
	"sync"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// Everything a user may do at the same time, done at the same time.

type leaf struct {
	Key  string  `attr:"leaf/key"`
	Size float64 `attr:"leaf/size"`
}

type tree struct {
	ID    uint64           `attr:"sys/db/id"`
	Name  string           `attr:"tree/name,identity"`
	At    time.Time        `attr:"tree/at"`
	On    *bool            `attr:"tree/on"`
	Leafs []leaf           `attr:"tree/leafs"`
	ByKey map[string]*leaf `attr:"tree/bykey,key=leaf/key"`
	Tags  []string         `attr:"tree/tags,value=tree/tag"`
	Next  *tree            `attr:"tree/next"`
	Inner leaf             `attr:"tree/inner"`
}

type name struct {
	Name string `attr:"tree/name"`
	Junk chan int
}

func newTree(c *cse, key string, next *tree) *tree {
	on := c.oneIn(2)
	t := &tree{Name: key, At: time.UnixMilli(c.Int64N(1 << 40)).UTC(), On: &on, Inner: leaf{"inner", c.Float64()}, Next: next, ByKey: map[string]*leaf{}}
	for i := range 1 + c.IntN(3) {
		t.Leafs = append(t.Leafs, leaf{fmt.Sprint(key, i), float64(i)})
		t.ByKey[fmt.Sprint("k", i)] = &leaf{fmt.Sprint("k", i), -float64(i)}
		t.Tags = append(t.Tags, fmt.Sprint("tag", c.IntN(10)))
	}
	return t
}

// sameTree compares a loaded tree with that recorded, to any length of chain.
func sameTree(want, got *tree) string {
	for i := 0; want != nil || got != nil; i++ {
		if want == nil || got == nil {
			return fmt.Sprintf("at %d of the chain %s rather than %s", i, renderGo(got), renderGo(want))
		}
		a, b := *want, *got
		a.ID, b.ID, a.Next, b.Next = 0, 0, nil, nil
		if renderGo(a) != renderGo(b) {
			return fmt.Sprintf("at %d of the chain %s rather than %s", i, renderGo(b), renderGo(a))
		}
		want, got = want.Next, got.Next
	}
	return ""
}

func useStructs(c *cse, fresh bool) {
	dbs := make([]public.Database, 1+c.IntN(2))
	for i := range dbs {
		if !c.guarded("NewDatabase", func() { dbs[i] = public.NewDatabase(public.Config{Degree: pick(c, degrees)}) }) {
			return
		}
	}
	// Structs which several goroutines assert at the same time, and which none changes.
	shared := []any{newTree(c, "shared0", nil), *newTree(c, "shared1", nil), &pair{Key: "shared2", Left: 2, Right: 2}}
	var snaps []*public.Snapshot
	var typed []public.TypedSnapshot[tree]
	var known []uint64
	if !fresh {
		for _, db := range dbs {
			res := db.Write(public.Request{Assertions: shared})
			if res.Error != nil {
				c.violated("writing %s: %v", renderGo(shared), res.Error)
				return
			}
			known = res.IDs
			snaps = append(snaps, res.Snap)
			ts, err := public.BuildTypedSnapshot[tree](res.Snap)
			if err != nil {
				c.violated("typed snapshot: %v", err)
				return
			}
			typed = append(typed, ts)
		}
	}
	// Struct types nobody has used before.
	var strange []reflect.Type
	for i := range 6 {
		strange = append(strange, reflect.StructOf([]reflect.StructField{
			{Name: "ID", Type: reflect.TypeFor[uint64](), Tag: `attr:"sys/db/id"`},
			{Name: "X", Type: reflect.TypeFor[int](), Tag: reflect.StructTag(fmt.Sprintf(`attr:"strange/%d/%d"`, c.n, i))},
		}))
	}
	n := 3 + c.IntN(5)
	per := 3 + c.IntN(5)
	c.together(n, func(i int, c *cse) {
		owned := map[string]uint64{}
		last := map[string]int{}
		for k := range per {
			db := dbs[c.IntN(len(dbs))]
			what := c.IntN(8)
			if fresh && k == 0 {
				what = 7 // everyone does the same thing first
			}
			if c.failed() {
				return
			}
			c.guarded(fmt.Sprint("struct use ", what), func() {
				switch what {
				case 0, 1: // a graph of one's own
					key := fmt.Sprintf("%d/%d", i, k)
					t := newTree(c, key, nil)
					if c.oneIn(2) {
						t.Next = newTree(c, key+"/next", nil)
					}
					res := db.Write(public.Request{Assertions: []any{t}})
					if res.Error != nil || len(res.IDs) != 1 {
						c.violated("writing %s: error %v, ids %v", renderGo(t), res.Error, res.IDs)
						return
					}
					for _, s := range []*public.Snapshot{res.Snap, db.Read()} {
						ts, err := public.BuildTypedSnapshot[tree](s)
						if err != nil {
							c.violated("typed snapshot: %v", err)
							return
						}
						if d := sameTree(t, ts.Find(res.IDs[0])); d != "" {
							c.violated("a tree was recorded and then loaded differently: %s", d)
						}
						c.count("graphs recorded and loaded", 1)
					}
				case 2: // an entity of one's own, again and again
					key := fmt.Sprintf("own/%d", i)
					db = dbs[0]
					p := pair{Key: key, Left: k, Right: -k, Rate: 1}
					p.ID = owned[key]
					res := db.Write(public.Request{Assertions: []any{&p}})
					if res.Error != nil || len(res.IDs) != 1 || owned[key] != 0 && res.IDs[0] != owned[key] {
						c.violated("writing %+v: error %v, ids %v", p, res.Error, res.IDs)
						return
					}
					owned[key], last[key] = res.IDs[0], k
					c.count("structs updated", 1)
				case 3: // structs which others assert too
					res := db.Write(public.Request{Assertions: []any{shared[2], shared[2]}})
					if res.Error != nil || len(res.IDs) != 2 || res.IDs[0] != res.IDs[1] {
						c.violated("writing %+v twice: error %v, ids %v", shared[2], res.Error, res.IDs)
					}
					c.count("shared structs asserted", 1)
				case 4: // rejected
					res := db.Write(public.Request{Assertions: []any{pair{ID: 1 << 50, Key: "x"}, &name{}}})
					if res.Error == nil {
						c.violated("an unknown id was accepted: %+v", res.IDs)
					}
					res = db.Write(public.Request{Assertions: []any{pick(c, []any{nil, 7, (*pair)(nil), struct {
						X chan int `attr:"x/x"`
					}{}})}})
					if res.Error == nil {
						c.violated("a malformed struct was accepted")
					}
					c.count("struct writes rejected", 2)
				case 5, 6: // the same snapshot as others
					if len(snaps) == 0 {
						return
					}
					j := c.IntN(len(snaps))
					if d := sameTree(shared[0].(*tree), typed[j].Find(known[0])); d != "" {
						c.violated("a tree of a shared snapshot: %s", d)
					}
					ns, err := public.BuildTypedSnapshot[name](snaps[j])
					if err != nil {
						c.violated("typed snapshot: %v", err)
						return
					}
					if got := ns.Find(known[1]); got == nil || got.Name != "shared1" {
						c.violated("a tree of a shared snapshot is named %+v", got)
					}
					c.count("shared snapshots read", 1)
				case 7: // a type nobody used
					v := reflect.New(pick(c, strange))
					if fresh && k == 0 {
						v = reflect.New(strange[0])
					}
					v.Elem().Field(1).SetInt(int64(i))
					res := db.Write(public.Request{Assertions: []any{v.Interface()}})
					if res.Error != nil || len(res.IDs) != 1 {
						c.violated("writing %+v: error %v", v.Interface(), res.Error)
					}
					c.count("new types used", 1)
				}
			})
		}
		if c.failed() {
			return
		}
		c.guarded("Find", func() {
			ts, err := public.BuildTypedSnapshot[pair](dbs[0].Read())
			if err != nil {
				c.violated("typed snapshot: %v", err)
				return
			}
			for key, id := range owned {
				if got := ts.Find(id); got == nil || got.Key != key || got.Left != last[key] || got.Right != -last[key] {
					c.violated("%s was written last as %d, but is %+v", key, last[key], got)
				}
			}
		})
	})
	c.feature(fmt.Sprintf("%d goroutines on %d databases", n, len(dbs)))
	c.sample = fmt.Sprintf("%d goroutines each made %d uses of %d databases of structs", n, per, len(dbs))
}

func useDatums(c *cse) {
	w := datumWorld(c, map[string]int{"declare": 3, "redeclare": 3, "name": 3, "rename": 3}, 0.2)
	if w == nil {
		return
	}
	w.history(4+c.IntN(8), nil)
	if c.failed() {
		return
	}
	// Requests which several goroutines make, and none changes.
	var shared []types.Request
	for range 5 {
		shared = append(shared, w.request())
	}
	// One snapshot of which all ask the same, knowing the answers.
	var snap types.Snapshot
	type question struct {
		cl  types.Claim
		ans []row
	}
	var qs []question
	analyzer := models.BuildCachingAnalyzer()
	loads := map[types.ID]string{}
	if !c.guarded("Read", func() {
		snap = w.db.Read()
		for range 12 {
			cl := w.randomQuery()
			qs = append(qs, question{cl, rows(snap.Select(cl))})
		}
		for _, e := range w.entities() {
			if len(loads) < 6 {
				loads[e] = load[seen](models.BuildCachingAnalyzer(), snap, e)
			}
		}
	}) {
		return
	}
	n := 3 + c.IntN(5)
	per := 4 + c.IntN(6)
	forks := make([]*world, n)
	for i := range forks {
		forks[i] = w.fork(nil)
	}
	sc := w.sc
	w.c.log("concurrently")
	results := make([]map[types.ID]val, n)
	own := w.attrWhere(func(a *attrInfo) bool { return !a.Many && a.Unique == 0 && (a.K == kInt || a.K == kStr) })
	c.together(n, func(i int, c *cse) {
		f := forks[i]
		f.c = c
		results[i] = map[types.ID]val{}
		var held []types.Snapshot
		for k := range per {
			if c.failed() {
				return
			}
			what := c.IntN(8)
			c.guarded(fmt.Sprint("use ", what), func() {
				switch what {
				case 0, 1:
					req := f.request()
					res := f.db.Write(req)
					if res.Snapshot == nil {
						c.violated("%s has no snapshot", renderReq(req))
						return
					}
					held = append(held, res.Snapshot)
					c.count("concurrent requests", 1)
				case 2:
					f.db.Write(shared[c.IntN(len(shared))])
					c.count("shared requests", 1)
				case 3:
					if own == nil {
						return
					}
					v := f.freshVal(own.K)
					var e types.ERef = types.TempID("mine")
					for id := range results[i] {
						e = id
					}
					res := f.db.Write(types.Request{Claims: []types.Claim{{E: e, A: own.ID, V: v.vref()}}})
					if res.Error != nil {
						c.violated("asserting %s of a new entity or one's own: %v", v, res.Error)
						return
					}
					id, ok := e.(types.ID)
					if !ok {
						id = res.TempIDs["mine"]
					}
					results[i][id] = v
					c.count("owned entities written", 1)
				case 4, 5:
					q := pick(c, qs)
					if s := sameRows(q.ans, rows(snap.Select(q.cl))); s != "" {
						c.violated("%s of a shared snapshot: %s", renderQuery(q.cl), s)
					}
					if m := snap.Count(q.cl); m != len(q.ans) {
						c.violated("%s of a shared snapshot: %d rather than %d", renderQuery(q.cl), m, len(q.ans))
					}
					next, stop := iter.Pull(snap.Select(q.cl))
					for range len(q.ans) / 2 {
						next()
					}
					stop()
					for name, id := range sc.idents {
						if got := snap.ResolveIdent(types.Ident(name)); got != id {
							c.violated("ident %q of a shared snapshot resolved to %d rather than %d", name, got, id)
						}
					}
					for id, a := range sc.attrs {
						if got := snap.ResolveAttrIdent(id); string(got) != a.Ident {
							c.violated("attribute %d of a shared snapshot resolved to %q rather than %q", id, got, a.Ident)
						}
					}
					c.count("shared snapshots asked", 1)
				case 6:
					for e, want := range loads {
						if got := load[seen](analyzer, snap, e); got != want {
							c.violated("a shared snapshot loaded %s rather than %s", got, want)
						}
						c.count("structs loaded", 1)
					}
				case 7:
					s := f.db.Read()
					if len(held) > 0 && c.oneIn(2) {
						s = pick(c, held)
					}
					m := 0
					for range s.Select(types.Claim{A: sys.DbIdent}) {
						m++
						if m == 5 && c.oneIn(2) {
							break
						}
					}
					cl := f.randomQuery()
					if got := len(rows(s.Select(cl))); got != s.Count(cl) || (got > 0) != s.Has(cl) {
						c.violated("%s yields %d, counts %d and has any: %v", renderQuery(cl), got, s.Count(cl), s.Has(cl))
					}
					c.count("snapshots asked", 1)
				}
			})
			_ = k
		}
	})
	if c.failed() {
		return
	}
	c.guarded("Read", func() {
		s := w.db.Read()
		for i := range results {
			for id, v := range results[i] {
				// Other goroutines may have found the entity and changed it; but they only know of
				// those they have seen in snapshots of their own, which were taken before.
				got := rows(s.Select(types.Claim{E: id, A: own.ID}))
				if len(got) != 1 || got[0].V != v {
					c.violated("goroutine %d wrote %s of its own entity %d last, but it has %v", i, v, id, got)
				}
			}
		}
		st, _ := dump(s)
		w.invariants(st, st.schema(), s, "after concurrent use")
	})
	c.feature(fmt.Sprintf("%d goroutines", n))
	c.sample = fmt.Sprintf("%d goroutines each made %d uses of a database of %d datums", n, per, len(w.st))
}

// useFirst has many goroutines use a database before anyone else has.
func useFirst(c *cse) {
	n := 4 + c.IntN(5)
	dbs := make([]types.Database, n)
	var one types.Database
	c.guarded("NewIndexDatabase", func() { one = database.NewIndexDatabase(pick(c, degrees), 0, 0) })
	snap := one.Read()
	var mu sync.Mutex
	ids := map[types.ID]int{}
	degree := pick(c, degrees)
	names := c.IntN(2)
	c.together(n, func(i int, c *cse) {
		c.guarded("first use", func() {
			dbs[i] = database.NewIndexDatabase(degree, i, i)
			for j, db := range []types.Database{one, dbs[i]} {
				ident := "first"
				if names == 1 {
					ident = fmt.Sprint("first", i)
				}
				e := types.TempID("x")
				res := db.Write(types.Request{Claims: append(declClaims(e, ident, types.ID(sys.AttrTypeInt), 0, 0),
					types.Claim{E: types.TxnID{}, A: sys.DbIdent, V: types.String(fmt.Sprint("txn", i))})})
				if res.Error != nil {
					c.violated("declaring %q: %v", ident, res.Error)
					return
				}
				res = db.Write(types.Request{Claims: []types.Claim{{E: types.TempID("e"), A: types.Ident(ident), V: types.Int(i)}}})
				if res.Error != nil {
					c.violated("asserting %q: %v", ident, res.Error)
					return
				}
				if j == 0 {
					mu.Lock()
					ids[res.TempIDs["e"]]++
					mu.Unlock()
				}
				got := rows(db.Read().Select(types.Claim{E: res.TempIDs["e"]}))
				if len(got) != 1 || got[0].V != vint(int64(i)) {
					c.violated("asserted %d of %d and then read %v", i, res.TempIDs["e"], got)
				}
				if m := snap.Count(types.Claim{A: types.Ident(ident)}); m != 0 {
					c.violated("the first snapshot has %d datums of %q", m, ident)
				}
				c.count("first uses", 1)
			}
		})
	})
	if len(ids) != n && !c.failed() {
		c.violated("%d new entities have %d ids: %v", n, len(ids), ids)
	}
	c.feature(fmt.Sprintf("%d goroutines first", n))
}

func runC02(c *cse) {
	switch c.n % 5 {
	case 0, 3:
		c.feature("structs")
		useStructs(c, false)
	case 1:
		c.feature("fresh structs")
		useStructs(c, true)
	case 2:
		c.feature("first")
		useFirst(c)
	case 4:
		c.feature("datums")
		useDatums(c)
	}
}

func init() {
	register(&check{
		id: "C02", quick: 400, thorough: 4000, raceQuick: 400, raceThorough: 2500,
		rule:   "several goroutines make mixed use of one or more databases, of shared snapshots, requests and structs, and of databases and types nobody used before, with the race detector; results known in advance are compared; distinct by layer, goroutines, requests",
		floors: map[string]int{"graphs recorded and loaded": 600, "shared snapshots read": 200, "shared snapshots asked": 200, "concurrent requests": 200, "first uses": 400, "new types used": 200, "owned entities written": 60},
		run:    runC02,
	})
}
