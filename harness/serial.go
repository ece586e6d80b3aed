package main

import (
	"fmt"
	"hash/fnv"
	"maps"
	"sort"
	"strings"
	"sync/atomic"

	public "github.com/dball/destructive/pkg/database"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// A concurrent history of writes and reads is recorded with a logical clock, and checked
// afterwards: the transaction ids give the only order it may be equivalent to.

type event struct {
	who        int
	start, end int64
	req        *types.Request // nil for a read
	res        types.Response
	snap       types.Snapshot
	st         state
	hash       uint64
}

func (e *event) String() string {
	what := "read"
	if e.req != nil {
		what = "write " + trim(renderReq(*e.req), 500)
		if e.res.Error == nil {
			what += fmt.Sprintf(" as %d", e.res.ID)
		} else {
			what += " rejected"
		}
	}
	return fmt.Sprintf("[%d, %d] by goroutine %d: %s", e.start, e.end, e.who, what)
}

func hashState(s state) (sum uint64) {
	for d, t := range s {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d %d %d %d %q %d", d.E, d.A, d.V.K, d.V.N, d.V.S, t)
		sum += h.Sum64()
	}
	return
}

func runC03(c *cse) {
	if c.n%3 == 2 {
		c.feature("structs")
		serialStructs(c)
		return
	}
	w := datumWorld(c, map[string]int{"swap": 4, "takeover": 8, "unify": 5, "heldtemp": 10, "collide": 6, "reclaim": 8, "rename": 6, "stealname": 6,
		"declare": 2, "redeclare": 2, "replace": 10, "retractentity": 5, "txn": 4}, 0.1)
	if w == nil {
		return
	}
	w.history(5+c.IntN(10), nil)
	if c.failed() {
		return
	}
	writers, readers := 2+c.IntN(5), 1+c.IntN(3)
	per := 6 + c.IntN(14)
	if c.oneIn(4) {
		per = 3
	}
	var k clock
	all := make([][]*event, writers+readers)
	var writing atomic.Int64
	writing.Store(int64(writers))
	// The goroutines agree on nothing but the database, so they propose the same values,
	// names and tempids.
	forks := make([]*world, writers+readers)
	for i := range forks {
		forks[i] = w.fork(nil)
	}
	c.together(writers+readers, func(i int, c *cse) {
		f := forks[i]
		f.c = c
		if i < writers {
			defer writing.Add(-1)
			for range per {
				req := f.request()
				ev := &event{who: i, req: &req}
				ev.start = k.tick()
				if !c.guarded("Write", func() { ev.res = f.db.Write(req) }) {
					return
				}
				ev.end = k.tick()
				ev.snap = ev.res.Snapshot
				all[i] = append(all[i], ev)
				if ev.snap == nil {
					return
				}
				if c.oneIn(2) {
					if !c.guarded("reading a response's snapshot", func() { ev.st, _ = dump(ev.snap) }) {
						return
					}
					f.see(ev.st)
				}
				if ev.res.Error == nil {
					f.give(ev.res.ID)
				}
			}
			return
		}
		for n := 0; n < 12 && (writing.Load() > 0 || n < 2); n++ {
			ev := &event{who: i}
			ev.start = k.tick()
			if !c.guarded("Read", func() { ev.snap = f.db.Read() }) {
				return
			}
			ev.end = k.tick()
			all[i] = append(all[i], ev)
			for range c.IntN(300) {
				k.Load()
			}
			if c.oneIn(2) {
				if !c.guarded("reading a snapshot", func() { ev.st, _ = dump(ev.snap) }) {
					return
				}
			}
		}
	})
	if c.failed() {
		return
	}
	var writes, reads []*event
	overlaps := 0
	for _, l := range all {
		for _, ev := range l {
			if ev.snap == nil {
				c.violated("%s has no snapshot", ev)
				return
			}
			if ev.st == nil && !c.guarded("reading a snapshot later", func() { ev.st, _ = dump(ev.snap) }) {
				return
			}
			ev.hash = hashState(ev.st)
			switch {
			case ev.req != nil && ev.res.Error == nil:
				writes = append(writes, ev)
			default:
				reads = append(reads, ev)
			}
			c.count("events", 1)
		}
	}
	sort.SliceStable(writes, func(i, j int) bool { return writes[i].res.ID < writes[j].res.ID })
	for i := 1; i < len(writes); i++ {
		if writes[i].who != writes[i-1].who {
			c.count("accepted writes after another goroutine's", 1)
		}
		if writes[i].start < writes[i-1].end && writes[i-1].start < writes[i].end {
			overlaps++
		}
	}
	c.count("overlapping consecutive writes", overlaps)
	c.feature(fmt.Sprint("overlaps ", overlaps))
	// Replay the accepted writes in their order.
	w.all = true
	states := []uint64{hashState(w.st)}
	// born are the numbers of the writes which issued ids.
	born := map[types.ID]int{}
	for i, ev := range writes {
		for j := i + 1; j < len(writes); j++ {
			if writes[j].end < ev.start {
				c.violated("%s precedes %s in transaction order, but followed it in time", ev, writes[j])
			}
		}
		before := maps.Clone(w.given)
		w.replay(ev)
		for id := range w.given {
			if !before[id] {
				born[id] = i + 1
			}
		}
		states = append(states, ev.hash)
		if c.failed() {
			c.log("replayed %d of %d", i, len(writes))
			return
		}
	}
	// Every other event sees a prefix.
	sort.SliceStable(reads, func(i, j int) bool { return reads[i].start < reads[j].start })
	seen := make([]int, len(reads))
	least := make([]int, len(reads))
	distinct := map[int]bool{}
	for i, ev := range reads {
		lb, ub := 0, 0
		for j, wr := range writes {
			if wr.end < ev.start {
				lb = j + 1
			}
			if wr.start < ev.end {
				ub = max(ub, j+1)
			}
		}
		for j := range i {
			if reads[j].end < ev.start {
				lb = max(lb, seen[j])
			}
		}
		// No write which had not started may have preceded the one last seen.
		for j := 0; j < ub; j++ {
			if writes[j].start > ev.end {
				ub = j
				break
			}
		}
		found := -1
		for n := lb; n <= ub; n++ {
			if states[n] == ev.hash {
				found = n
				break
			}
		}
		if found < 0 {
			any := []int{}
			for n := range states {
				if states[n] == ev.hash {
					any = append(any, n)
				}
			}
			c.violated("%s: the snapshot must be the state after between %d and %d of the %d writes, but is the state after %v of them", ev, lb, ub, len(writes), any)
			for j, wr := range writes {
				c.log("write %d: %s", j+1, wr)
			}
			return
		}
		seen[i] = found
		least[i] = lb
		distinct[found] = true
		c.count("snapshots placed", 1)
		if ub > lb {
			c.count("snapshots with several possible places", 1)
		}
	}
	c.feature(fmt.Sprint("prefixes ", len(distinct)))
	c.count("distinct prefixes seen", len(distinct))
	// A rejection must be right about the state it reports.
	w.rejections(reads, seen, least, born)
	c.sample = fmt.Sprintf("%d writers and %d readers, %d accepted writes of which %d overlapped the next, %d other snapshots of %d prefixes", writers, readers, len(writes), overlaps, len(reads), len(distinct))
}

// replay checks an accepted write against the model and the state before it.
func (w *world) replay(ev *event) {
	c := w.c
	pre, sc := w.st, w.sc
	o := step(pre, sc, w, *ev.req)
	what := ev.String()
	wr := &written{req: *ev.req, res: ev.res, accepted: true, o: o, pre: pre, preSc: sc}
	c.log("replay %s", what)
	w.st, w.sc = ev.st, ev.st.schema()
	if o.mustReject() {
		c.violated("%s was accepted, but upon the state its predecessors leave it must be rejected (%s)", what, o.reasons())
		return
	}
	if ev.res.ID <= w.highest {
		c.violated("%s has an id which is not new (highest issued %d)", what, w.highest)
	}
	w.accepted(wr, "replayed "+trim(what, 700), ev.st)
	c.count("writes replayed", 1)
	if len(o.flex) == 0 {
		c.count("writes replayed exactly", 1)
	}
	w.give(ev.res.ID)
	for _, id := range ev.res.TempIDs {
		w.give(id)
	}
	for d := range ev.st {
		w.give(d.E)
	}
	w.track(pre, ev.st)
}

// rejections checks that rejected writes had to be, upon the prefix they saw.
func (w *world) rejections(others []*event, seen, least []int, born map[types.ID]int) {
	c := w.c
	for i, ev := range others {
		if ev.req == nil {
			continue
		}
		c.count("rejected writes judged", 1)
		o := step(ev.st, ev.st.schema(), &knownThen{w, ev.st.schema(), born, least[i]}, *ev.req)
		if o.mustAccept() {
			c.violated("%s: upon the state of its snapshot, that after %d writes, it is valid, but it failed with %v", ev, seen[i], ev.res.Error)
		}
	}
}

// knownThen is what was surely known of ids after some of the writes.
type knownThen struct {
	w      *world
	sc     *schema
	born   map[types.ID]int
	writes int
}

func (k *knownThen) issued(id types.ID) (yes, unclear bool) {
	yes, unclear = k.w.issued(id)
	if yes && k.born[id] > k.writes && len(k.sc.byE[id]) == 0 {
		return false, true
	}
	return
}

// --- structs

type pair struct {
	ID    uint64  `attr:"sys/db/id"`
	Key   string  `attr:"pair/key,identity"`
	Left  int     `attr:"pair/left"`
	Right int     `attr:"pair/right"`
	Rate  float64 `attr:"pair/rate"`
	Mate  *pair   `attr:"pair/mate"`
}

type named struct {
	Ident string `attr:"sys/db/ident"`
}

type fresh0 struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"fresh/n"`
}

type fresh1 struct {
	ID uint64 `attr:"sys/db/id"`
	S  string `attr:"fresh/s,unique"`
}

type fresh2 struct {
	ID uint64 `attr:"sys/db/id"`
	L  []int  `attr:"fresh/l,value=fresh/n"`
}

type fresh3 struct {
	ID   uint64  `attr:"sys/db/id"`
	Next *fresh0 `attr:"fresh/next"`
}

type fresh4 struct {
	S string `attr:"fresh/four"`
}

type half struct {
	Right int `attr:"pair/right"`
}

func serialStructs(c *cse) {
	var db public.Database
	if !c.guarded("NewDatabase", func() { db = public.NewDatabase(public.Config{Degree: pick(c, degrees)}) }) {
		return
	}
	n := 2 + c.IntN(4)
	latest := make([]atomic.Int64, n)
	ids := make([]atomic.Uint64, n)
	var writing atomic.Int64
	writing.Store(int64(n))
	per := 5 + c.IntN(20)
	refusing := c.IntN(3)
	c.together(n+2+refusing, func(i int, c *cse) {
		if i >= n+2 {
			// No others' writes are lost to a write which is refused, nor does any snapshot have any of it.
			for r := 0; r < 60 && (writing.Load() > 0 || r < 3); r++ {
				const unknown = 1 << 40
				bad := pick(c, []any{fresh0{unknown, r}, &fresh1{unknown, "x"}, fresh2{unknown, []int{r}}, &fresh3{unknown, &fresh0{N: r}}})
				args := []any{bad}
				if c.oneIn(2) {
					args = []any{&pair{Key: fmt.Sprint("refused", i), Left: 1, Right: 2}, fresh4{S: "x"}, bad}
				}
				var res public.Response
				if !c.guarded("Write", func() { res = db.Write(public.Request{Assertions: args}) }) {
					return
				}
				if res.Error == nil {
					c.violated("a struct of entity %d was recorded: %v", unknown, res.IDs)
					return
				}
				c.count("struct writes refused meanwhile", 1)
			}
			return
		}
		if i < n {
			defer writing.Add(-1)
			key := fmt.Sprint("key", i)
			for k := 1; k <= per; k++ {
				p := &pair{Key: key, Left: k, Right: k, Rate: float64(k)}
				if id := ids[i].Load(); id != 0 && c.oneIn(2) {
					p.ID = id
				}
				// Every third write gives the pair a mate of another goroutine's.
				if c.oneIn(3) {
					p.Mate = &pair{Key: fmt.Sprint("mate", c.IntN(3)), Left: -k, Right: -k, Rate: -float64(k)}
				}
				var res public.Response
				if !c.guarded("Write", func() { res = db.Write(public.Request{Assertions: []any{p}}) }) {
					return
				}
				if res.Error != nil || len(res.IDs) != 1 || res.Snap == nil {
					c.violated("writing %+v: error %v, ids %v", p, res.Error, res.IDs)
					return
				}
				if old := ids[i].Swap(res.IDs[0]); old != 0 && old != res.IDs[0] {
					c.violated("%s was entity %d and then %d", key, old, res.IDs[0])
				}
				latest[i].Store(int64(k))
				for _, snap := range []*public.Snapshot{res.Snap, db.Read()} {
					c.guarded("Find", func() {
						ts, err := public.BuildTypedSnapshot[pair](snap)
						if err != nil {
							c.violated("typed snapshot: %v", err)
							return
						}
						got := ts.Find(res.IDs[0])
						if got == nil || got.Left != k || got.Right != k || got.Rate != float64(k) || got.Key != key {
							c.violated("goroutine %d wrote %d of %s and then read %+v", i, k, key, got)
							return
						}
						if m := p.Mate; m != nil && snap == res.Snap {
							if got.Mate == nil || got.Mate.Key != m.Key || got.Mate.Left != m.Left || got.Mate.Right != m.Right {
								c.violated("goroutine %d wrote mate %+v and then read %+v", i, m, got.Mate)
							}
						}
						if m := got.Mate; m != nil && (m.Left != m.Right || m.Rate != float64(m.Left)) {
							c.violated("a torn mate %+v", m)
						}
					})
					c.count("reads of own structs", 1)
				}
			}
			return
		}
		last := make([]int, n)
		for r := 0; r < 200 && (writing.Load() > 0 || r < 3); r++ {
			floor := make([]int64, n)
			for j := range floor {
				floor[j] = latest[j].Load()
			}
			ok := c.guarded("Find", func() {
				snap := db.Read()
				ts, err := public.BuildTypedSnapshot[pair](snap)
				hs, err2 := public.BuildTypedSnapshot[half](snap)
				if is, err := public.BuildTypedSnapshot[named](snap); err == nil && refusing > 0 {
					for id := sys.FirstUserID; id < sys.FirstUserID+24; id++ {
						if x := is.Find(uint64(id)); x != nil && strings.HasPrefix(x.Ident, "fresh/") {
							c.violated("a snapshot has the attribute %q, of a write which was refused", x.Ident)
							return
						}
					}
				}
				if err != nil || err2 != nil {
					c.violated("typed snapshots: %v %v", err, err2)
					return
				}
				for j := range n {
					id := ids[j].Load()
					if id == 0 || floor[j] == 0 {
						continue
					}
					got, h := ts.Find(id), hs.Find(id)
					switch {
					case got == nil || h == nil:
						c.violated("entity %d, written %d times before, was not found", id, floor[j])
						return
					case got.Left != got.Right || got.Rate != float64(got.Left) || h.Right != got.Right:
						c.violated("a torn struct %+v, and %+v", got, h)
					case int64(got.Left) < floor[j]:
						c.violated("entity %d was written as %d before, but read as %d", id, floor[j], got.Left)
					case got.Left < last[j]:
						c.violated("entity %d was read as %d before, and then as %d", id, last[j], got.Left)
					}
					last[j] = got.Left
					c.count("reads of others' structs", 1)
				}
			})
			if !ok || c.failed() {
				return
			}
		}
	})
	c.sample = fmt.Sprintf("%d writers of %d structs each, read by all", n, per)
	c.feature(fmt.Sprintf("%d writers", n))
}

func init() {
	register(&check{
		id: "C03", quick: 720, thorough: 20000, raceQuick: 120, raceThorough: 3000,
		rule:   "several goroutines write to and read one database, generating requests from stale states; the recorded history is replayed through the model in transaction order, every snapshot placed at a prefix within real-time bounds; a third of the cases write structs whose fields must agree; distinct by request kinds, overlapping writes and prefixes seen",
		floors: map[string]int{"writes replayed": 5000, "snapshots placed": 2000, "overlapping consecutive writes": 5, "distinct prefixes seen": 500, "reads of others' structs": 1000, "rejected writes judged": 200},
		run:    runC03,
	})
}
