package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// runC04 drives two databases. Both are given the writes the first accepts; only the
// first those it rejects. Nothing may ever tell them apart.
func runC04(c *cse) {
	if c.oneIn(7) {
		runStructTwins(c)
		return
	}
	degree := pick(c, degrees)
	w := newWorld(c, degree)
	if w == nil {
		return
	}
	var twin types.Database
	if !c.guarded("NewIndexDatabase", func() { twin = database.NewIndexDatabase(degree, 64, 64) }) {
		return
	}
	var echoes []types.Claim
	rejections := 0
	compare := func(wr *written) {
		if c.failed() || wr.res.Snapshot == nil {
			return
		}
		if !wr.accepted {
			rejections++
			for _, cl := range wr.req.Claims {
				if len(echoes) < 60 {
					echoes = append(echoes, cl)
				} else {
					echoes[c.IntN(len(echoes))] = cl
				}
			}
			if !wr.o.mustAccept() {
				return
			}
		}
		var res types.Response
		if !c.guarded("Write to the twin", func() { res = twin.Write(wr.req) }) {
			return
		}
		c.count("writes compared with the twin's", 1)
		if rejections == 0 {
			return // nothing could have left a trace
		}
		c.count("writes compared after rejections", 1)
		if (res.Error == nil) != wr.accepted {
			c.violated("after %d rejected writes %s has error %v, without them %v", rejections, trim(renderReq(wr.req), 700), wr.res.Error, res.Error)
			return
		}
		if res.ID != wr.res.ID || !maps.Equal(res.TempIDs, wr.res.TempIDs) {
			c.violated("after %d rejected writes %s is transaction %d with tempids %v, without them %d with %v", rejections, trim(renderReq(wr.req), 700), wr.res.ID, wr.res.TempIDs, res.ID, res.TempIDs)
			return
		}
		c.guarded("comparing with the twin", func() {
			a, _ := dump(wr.res.Snapshot)
			b, _ := dump(res.Snapshot)
			if m, e, r := diffStates(b, a, true); len(m)+len(e)+len(r) > 0 {
				c.violated("after %d rejected writes and then %s the database lacks %s, has %s besides and has from other transactions %s", rejections, trim(renderReq(wr.req), 700), renderState(m), renderState(e), renderState(r))
			}
			names := append([]string{}, w.names...)
			for _, cl := range echoes {
				if s, ok := cl.V.(types.String); ok {
					names = append(names, string(s))
				}
			}
			for i := range 12 {
				names = append(names, fmt.Sprintf("new/%d", i), fmt.Sprintf("bad/%d", i))
			}
			for _, n := range names {
				if x, y := wr.res.Snapshot.ResolveIdent(types.Ident(n)), res.Snapshot.ResolveIdent(types.Ident(n)); x != y {
					c.violated("after %d rejected writes ident %q resolves to %d, without them to %d", rejections, n, x, y)
				}
			}
			for id := w.highest - min(w.highest, 40); id < w.highest+5; id++ {
				if x, y := wr.res.Snapshot.ResolveAttrIdent(id), res.Snapshot.ResolveAttrIdent(id); x != y {
					c.violated("after %d rejected writes attribute %d has ident %q, without them %q", rejections, id, x, y)
				}
			}
		})
	}
	// The declarations too are written to both.
	write := func(req types.Request) *written {
		wr := w.write(req)
		compare(wr)
		return wr
	}
	b := &build{prefix: "a"}
	n := 12 + c.IntN(25)
	for i := range n {
		k := allKinds[i%len(allKinds)]
		many, uniq := c.oneIn(2), pick(c, []types.ID{0, 7, 8})
		card := types.ID(0)
		if many {
			card = 10
		}
		id := fmt.Sprintf("%s/%d", attrIdent(k, many, uniq), i)
		b.add(w.vary(declClaims(b.temp(), id, k.typeID(), card, uniq))...)
	}
	if !write(types.Request{Claims: b.claims}).accepted {
		return
	}
	w.setWeights(with(map[string]int{"new": 14, "name": 6, "stealname": 3, "declare": 3, "alterattr": 6, "badattr": 8, "system": 4, "collide": 5, "samecard": 5, "conflicttemp": 5, "valuetemp": 5, "badtype": 6, "badref": 6, "badretract": 3}))
	steps := 25 + c.IntN(40)
	for range steps {
		if c.failed() {
			return
		}
		w.noise = 0
		if c.oneIn(5) {
			rejectedGroup(w, echoes)
		}
		switch {
		case c.oneIn(2): // much that is well, with one fault somewhere in it
			var req types.Request
			for range 2 + c.IntN(3) {
				r := w.request()
				for i := range r.Claims {
					r.Claims[i] = retemp(r.Claims[i], fmt.Sprintf("r%d-", len(req.Claims)))
				}
				req.Claims = append(req.Claims, r.Claims...)
				req.Retractions = append(req.Retractions, r.Retractions...)
			}
			fault := &build{prefix: "f"}
			for range 20 {
				if op := w.op(); errOps[op] && genOps[op](w, fault) {
					c.feature("fault " + op)
					break
				}
			}
			at := c.IntN(len(req.Claims) + 1)
			claims := append([]types.Claim{}, req.Claims[:at]...)
			claims = append(append(claims, fault.claims...), req.Claims[at:]...)
			if c.oneIn(3) {
				c.Shuffle(len(claims), func(i, j int) { claims[i], claims[j] = claims[j], claims[i] })
			}
			req.Claims = claims
			req.Retractions = append(req.Retractions, fault.retractions...)
			write(req)
		case len(echoes) > 0 && c.oneIn(2): // parts of what was rejected
			var req types.Request
			from := c.IntN(len(echoes))
			for i := range 1 + c.IntN(5) {
				req.Claims = append(req.Claims, echoes[(from+i)%len(echoes)])
			}
			wr := write(req)
			if wr.accepted {
				c.count("parts of rejected writes accepted later", 1)
			}
		default:
			write(w.request())
		}
	}
	c.sample = fmt.Sprintf("%d writes of which %d were rejected, the last %s", steps, rejections, trim(renderReq(w.last.req), 400))
}

// rejectedGroup makes several requests as one, as writes of structs do, the last of which must be
// rejected, and so all.
func rejectedGroup(w *world, echoes []types.Claim) {
	c := w.c
	db, ok := w.db.(interface {
		WriteAll([]types.Request) types.Response
	})
	if !ok {
		return
	}
	pre := w.st
	var reqs []types.Request
	for i := range 1 + c.IntN(3) {
		b := &build{prefix: fmt.Sprintf("a%d-", i)}
		switch {
		case c.oneIn(3):
			reqs = append(reqs, w.request())
			continue
		case c.oneIn(2):
			b.add(types.Claim{E: b.temp(), A: sys.DbIdent, V: types.String(fmt.Sprintf("new/%d", c.IntN(12)))})
		}
		k := pick(c, allKinds)
		b.add(declClaims(b.temp(), fmt.Sprintf("bad/%d", c.IntN(12)), k.typeID(), pick(c, []types.ID{0, 10}), pick(c, []types.ID{0, 7, 8}))...)
		reqs = append(reqs, types.Request{Claims: b.claims})
	}
	last := w.request()
	last.Claims = append(slices.Clone(last.Claims), types.Claim{E: types.TempID("never"), A: types.Ident("never/declared"), V: types.Int(1)})
	reqs = append(reqs, last)
	var res types.Response
	if !c.guarded("WriteAll", func() { res = db.WriteAll(reqs) }) {
		return
	}
	var what strings.Builder
	for _, req := range reqs {
		what.WriteString(trim(renderReq(req), 400) + "; ")
	}
	if res.Error == nil {
		c.violated("accepted %s though the last names an attribute never declared", what.String())
		return
	}
	c.count("groups rejected", 1)
	snaps := map[string]types.Snapshot{"the response's snapshot": res.Snapshot, "the database": w.db.Read()}
	for name, snap := range snaps {
		if snap == nil {
			c.violated("the response to rejected %s has no snapshot", what.String())
			return
		}
		c.guarded("reading after a rejected group", func() {
			st, _ := dump(snap)
			if m, e, r := diffStates(pre, st, true); len(m)+len(e)+len(r) > 0 {
				c.violated("after the rejection of %s %s lacks %s, has %s besides and changed %s", what.String(), name, renderState(m), renderState(e), renderState(r))
			}
			for i := range 12 {
				for _, prefix := range []string{"new", "bad"} {
					ident := fmt.Sprintf("%s/%d", prefix, i)
					var id types.ID
					for d := range pre {
						if d.A == sys.DbIdent && d.V == vstr(ident) {
							id = d.E
						}
					}
					if got := snap.ResolveIdent(types.Ident(ident)); got != id {
						c.violated("after the rejection of %s %s resolves ident %q to %d, not %d", what.String(), name, ident, got, id)
					}
				}
			}
		})
	}
}

// mapless families are those whose structs' entities are always issued ids in the same order.
var mapless []*family

func init() {
	var hasMap func(t reflect.Type, done map[reflect.Type]bool) bool
	hasMap = func(t reflect.Type, done map[reflect.Type]bool) bool {
		if done[t] {
			return false
		}
		done[t] = true
		for _, tag := range tagsOf(t) {
			ft := t.Field(tag.index).Type
			if ft.Kind() == reflect.Map {
				return true
			}
			for ft.Kind() == reflect.Pointer || ft.Kind() == reflect.Slice {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct && ft != timeType && hasMap(ft, done) {
				return true
			}
		}
		return false
	}
	for _, f := range families {
		if !hasMap(f.typ, map[reflect.Type]bool{}) {
			mapless = append(mapless, f)
		}
	}
	if len(mapless) < 10 {
		bug("%d families have no maps", len(mapless))
	}
}

// runStructTwins does the same with databases of structs.
func runStructTwins(c *cse) {
	w := newStructWorld(c)
	if w == nil {
		return
	}
	var twin public.Database
	if !c.guarded("NewDatabase", func() { twin = public.NewDatabase(public.Config{}) }) {
		return
	}
	f := w.fill
	f.reuse, f.update, f.strange, f.share, f.empty, f.colls = 0.3*c.Float64(), 0.2, 0.02, 0.1, 0.3, 0.3
	var own []*family
	for range 2 + c.IntN(4) {
		own = append(own, pick(c, mapless))
	}
	rejections := 0
	var rejected []any // what was in the rejected writes
	steps := 8 + c.IntN(10)
	for range steps {
		if c.failed() {
			return
		}
		f.begin()
		var req public.Request
		for range 1 + c.IntN(3) {
			fam := pick(c, own)
			if c.oneIn(6) {
				fam = pick(c, mapless)
			}
			req.Assertions = append(req.Assertions, f.root(fam.typ, 1+c.IntN(2)))
		}
		if len(rejected) > 0 && c.oneIn(4) {
			req.Assertions = []any{pick(c, rejected)}
		}
		if c.oneIn(4) {
			if x := w.retractable(own); x != nil {
				req.Retractions = append(req.Retractions, x)
			}
		}
		var wr *structWrite
		if c.oneIn(3) {
			bad, why := w.malformed()
			good := req.Assertions
			wr = w.writeMalformed(req, bad, why)
			rejected = append(rejected, good...)
		} else {
			wr = w.write(req)
		}
		if wr == nil || wr.res.Snap == nil || c.failed() {
			continue
		}
		if !wr.accepted {
			rejections++
			if wr.malform == "" {
				rejected = append(rejected, req.Assertions...)
			}
			c.feature("rejected " + wr.malform + firstReason(wr.o))
			continue
		}
		what := trim(renderStructs(req), 700)
		var res public.Response
		if !c.guarded("Write to the twin", func() { res = twin.Write(req) }) {
			return
		}
		c.count("struct writes compared with the twin's", 1)
		if res.Error != nil || res.Snap == nil || !slices.Equal(res.IDs, wr.res.IDs) {
			c.violated("after %d rejected writes %s has ids %v, without them %v and error %v", rejections, what, wr.res.IDs, res.IDs, res.Error)
			return
		}
		// The attributes may have other ids, so others than these may be absent.
		absent := w.absent
		w.absent = map[types.ID]bool{}
		st, attrs, ok := w.read(res.Snap)
		w.absent = absent
		if !ok {
			return
		}
		if m, e, _ := diffStates(st, w.st, false); len(m)+len(e) > 0 {
			c.violated("after %d rejected writes and then %s the database lacks %s and has %s besides", rejections, what, w.render(m), w.render(e))
			return
		}
		// Which attribute of a schema has which id is not settled.
		if a, b := identsOf(attrs), identsOf(w.attrs); !slices.Equal(a, b) {
			c.violated("after %d rejected writes and then %s the attributes are %v, without them %v", rejections, what, b, a)
			return
		}
		if rejections > 0 {
			c.count("struct writes compared after rejections", 1)
		}
	}
	c.sample = fmt.Sprintf("%d writes of structs of which %d were rejected", steps, rejections)
}

// identsOf are the attributes declared.
func identsOf(attrs state) (out []string) {
	of := map[types.ID]string{}
	for d := range attrs {
		if d.A == sys.DbIdent {
			of[d.E] = d.V.S
		}
	}
	for d := range attrs {
		if d.A != sys.DbIdent {
			out = append(out, fmt.Sprint(of[d.E], d.A, d.V))
		}
	}
	slices.Sort(out)
	return
}

// retemp keeps the tempids of one part of a request apart from others'.
func retemp(cl types.Claim, prefix string) types.Claim {
	if t, ok := cl.E.(types.TempID); ok {
		cl.E = types.TempID(prefix) + t
	}
	if t, ok := cl.V.(types.TempID); ok {
		cl.V = types.TempID(prefix) + t
	}
	return cl
}

func init() {
	register(&check{
		id: "C04", quick: 700, thorough: 8000,
		floors: map[string]int{"rejected": 2000, "writes compared after rejections": 1000, "parts of rejected writes accepted later": 200, "struct writes compared after rejections": 200},
		rule:   "histories of accepted and rejected writes to one database, of which a twin receives only the accepted ones, each response and state being compared; rejected requests have one fault among other claims and parts of them are written again later; distinct by the kinds of fault and rejection",
		run:    runC04,
	})
}
