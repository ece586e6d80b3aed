package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// world is a database under a monitored history.
type world struct {
	c  *cse
	db types.Database
	st state
	sc *schema
	// given are the ids the database has told its user of.
	given   map[types.ID]bool
	highest types.ID
	long    bool // of many small writes
	ops     []weighted
	opsSum  int
	// noise is the chance that a request contains something which must be rejected.
	noise    float64
	steps    int
	big      bool // some requests are large
	all      bool // every divergence breaks the property
	retired  []types.ID
	lost     []eav // datums removed earlier
	names    []string
	declared int
	last     *written
	snaps    []heldSnapshot
}

type weighted struct {
	op string
	n  int
}

type written struct {
	req      types.Request
	res      types.Response
	accepted bool
	o        *outcome
	pre      state
	preSc    *schema
}

func (w *world) issued(id types.ID) (yes, unclear bool) {
	switch {
	case id == 0:
		return false, false
	case id < sys.FirstUserID:
		_, ok := w.sc.byE[id]
		return ok, false
	case w.given[id]:
		return true, false
	case len(w.sc.byE[id]) > 0:
		return true, false
	case id > w.highest+1000:
		return false, false
	}
	return false, true
}

func newWorld(c *cse, degree int) *world {
	w := &world{c: c, given: map[types.ID]bool{}, highest: sys.FirstUserID}
	if !c.guarded("NewIndexDatabase", func() { w.db = database.NewIndexDatabase(degree, c.IntN(3)*64, c.IntN(3)*64) }) {
		return nil
	}
	for i := range 6 {
		w.names = append(w.names, fmt.Sprintf("name/%d", i))
	}
	w.names = append(w.names, "n", "", "é/\xff", "sysx", "sy", "SYS/x")
	w.names = append(w.names, w.strangeNames()...)
	w.setWeights(defaultOps)
	w.noise = 0.2
	w.refresh(nil)
	return w
}

func (w *world) setWeights(m map[string]int) {
	w.ops = nil
	w.opsSum = 0
	var names []string
	for op := range m {
		names = append(names, op)
	}
	sort.Strings(names)
	for _, op := range names {
		if genOps[op] == nil && !errOps[op] {
			bug("no op %s", op)
		}
		if m[op] > 0 {
			w.ops = append(w.ops, weighted{op, m[op]})
			w.opsSum += m[op]
		}
	}
}

// with overrides the default weights.
func with(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range defaultOps {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

// refresh reads the whole state of a snapshot, or the database.
func (w *world) refresh(snap types.Snapshot) bool {
	ok := w.c.guarded("reading the database", func() {
		if snap == nil {
			snap = w.db.Read()
		}
		w.st, _ = dump(snap)
	})
	w.sc = w.st.schema()
	return ok
}

var defaultOps = map[string]int{
	"new": 10, "assert": 10, "restate": 5, "retract": 6, "retractabsent": 2, "replace": 6, "swap": 2, "takeover": 3,
	"unify": 3, "heldtemp": 4, "temprefs": 3, "txn": 2, "retractentity": 3, "declare": 1, "redeclare": 1, "name": 2,
	"rename": 2, "unname": 1, "stealname": 1, "many": 4, "reclaim": 3, "duplicate": 2, "touchattr": 1,
	// these must all be rejected
	"conflicttemp": 2, "samecard": 2, "collide": 3, "alterattr": 2, "badattr": 2, "system": 2, "badtype": 2, "badref": 2,
	"badretract": 2, "valuetemp": 2, "akinref": 2,
}

var errOps = map[string]bool{"conflicttemp": true, "samecard": true, "collide": true, "alterattr": true, "badattr": true,
	"system": true, "badtype": true, "badref": true, "badretract": true, "valuetemp": true, "akinref": true}

// --- values

var longString = strings.Repeat("long ", 60)

var strPool = []string{"", "a", "b", "c", "ab", "a\x00", "\x00", "\xff\xfe", "é", "e\u0301", "sys/x", "A", "a ", longString, longString + "x", "0", "日本"}
var intPool = []int64{0, 1, -1, 2, -2, 7, 10, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 255, 256, 1 << 32, -(1 << 32)}
var floatPool = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, math.Inf(1), math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, 0.1 + 0.2, 0.3, 1e300, -1e-300, 2, -2}
var instPool = []int64{0, 1, -1, 2, 1000, -1000, 999, -62135596800000, 1700000000123, 1700000000124, 253402300799999, -1700000000123, 1 << 50, -(1 << 50)}

func (w *world) poolVal(k kind) val {
	c := w.c
	switch k {
	case kStr:
		if w.sc != nil && c.oneIn(12) {
			if d, _, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return d.V.K == kStr }); ok {
				return vstr(akin(c, d.V.S))
			}
		}
		return vstr(pick(c, strPool))
	case kInt:
		return vint(pick(c, intPool))
	case kFloat:
		return vfloat(pick(c, floatPool))
	case kBool:
		return vbool(c.oneIn(2))
	case kInst:
		return vinst(pick(c, instPool))
	case kRef:
		switch c.IntN(10) {
		case 0:
			return vref(types.ID(1 + c.IntN(19)))
		case 1:
			return vref(w.highest + types.ID(2000+c.IntN(3)))
		case 2:
			if len(w.retired) > 0 {
				return vref(pick(c, w.retired))
			}
		case 3:
			if as := w.userAttrs(nil); len(as) > 0 {
				return vref(pick(c, as).ID)
			}
		}
		if es := w.entities(); len(es) > 0 {
			return vref(pick(c, es))
		}
		return vref(sys.DbIdent)
	}
	bug("no pool for %v", k)
	return val{}
}

// freshVal is unlikely to have been used before.
func (w *world) freshVal(k kind) val {
	c := w.c
	switch k {
	case kStr:
		if c.oneIn(40) {
			return vstr(pick(c, twinned(c)))
		}
		return vstr(fmt.Sprintf("s%d", c.IntN(1<<20)))
	case kInt:
		return vint(int64(c.Uint64()))
	case kFloat:
		return vfloat(math.Float64frombits(c.Uint64()))
	case kInst:
		return vinst(c.Int64N(1<<44) - 1<<43)
	}
	return w.poolVal(k)
}

func (w *world) someVal(a *attrInfo) val {
	c := w.c
	switch {
	case c.oneIn(3) || (a.Unique != 0 && c.oneIn(2)):
		return w.freshVal(a.K)
	}
	return w.poolVal(a.K)
}

// raw renders a value as the repository's, varying what ought not to matter.
func (w *world) raw(v val) types.VRef {
	c := w.c
	switch v.K {
	case kInst:
		t := time.UnixMilli(int64(v.N)).UTC()
		switch c.IntN(4) {
		case 0:
			t = t.Add(time.Duration(c.IntN(1000000)))
		case 1:
			t = t.In(time.FixedZone("X", (c.IntN(27)-13)*3600+1800))
		}
		return types.Inst(t)
	case kFloat:
		f := math.Float64frombits(v.N)
		switch {
		case f != f && c.oneIn(2):
			return types.Float(math.Float64frombits(0x7ff8000000000000 | uint64(1+c.IntN(1000))))
		case f != f && c.oneIn(2):
			return types.Float(math.Float64frombits(0xfff8000000000000))
		case f == 0 && c.oneIn(2):
			return types.Float(math.Copysign(0, -1))
		}
	}
	return v.vref()
}

// --- what there is

func (w *world) userAttrs(f func(a *attrInfo) bool) (out []*attrInfo) {
	for id, a := range w.sc.attrs {
		if id >= sys.FirstUserID && (f == nil || f(a)) {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return
}

func (w *world) attrs() []*attrInfo { return w.userAttrs(nil) }

// entities are the user's entities other than attributes.
func (w *world) entities() (out []types.ID) {
	for e := range w.sc.byE {
		if e >= sys.FirstUserID && w.sc.attrs[e] == nil {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// datums are those of the user's entities other than attributes.
func (w *world) datums(f func(d eav, a *attrInfo) bool) (out []eav) {
	for d := range w.st {
		if d.E < sys.FirstUserID || w.sc.attrs[d.E] != nil {
			continue
		}
		if f == nil || f(d, w.sc.attrs[d.A]) {
			out = append(out, d)
		}
	}
	sort.Slice(out, func(i, j int) bool { return lessEAV(out[i], out[j]) })
	return
}

func sortedDatums(ds []eav) []eav {
	ds = slices.Clone(ds)
	sort.Slice(ds, func(i, j int) bool { return lessEAV(ds[i], ds[j]) })
	return ds
}

func (w *world) uniqueDatums() []eav {
	return w.datums(func(d eav, a *attrInfo) bool { return a != nil && a.Unique != 0 })
}

// --- references

// idref is any reference which denotes an entity now.
func (w *world) idref(e types.ID) types.IDRef {
	c := w.c
	if c.oneIn(2) {
		return e
	}
	var refs []types.IDRef
	for _, d := range w.sc.byE[e] {
		a := w.sc.attrs[d.A]
		if d.A == sys.DbIdent {
			refs = append(refs, types.Ident(d.V.S), types.Ident(d.V.S))
		}
		if a != nil && a.Unique != 0 {
			refs = append(refs, types.LookupRef{A: w.aref(a, 1), V: w.raw(d.V).(types.Value)})
		}
	}
	if len(refs) == 0 {
		return e
	}
	sort.Slice(refs, func(i, j int) bool { return fmt.Sprint(refs[i]) < fmt.Sprint(refs[j]) })
	return pick(c, refs)
}

func (w *world) eref(e types.ID) types.ERef { return w.idref(e).(types.ERef) }

func (w *world) aref(a *attrInfo, depth int) types.IDRef {
	c := w.c
	switch {
	case a.Ident == "" || c.oneIn(3):
		return a.ID
	case depth > 2 || c.oneIn(2):
		return types.Ident(a.Ident)
	case c.oneIn(2):
		// Attributes are entities, which other unique values may identify.
		for _, d := range sortedDatums(w.sc.byE[a.ID]) {
			if by := w.sc.attrs[d.A]; by != nil && by.Unique != 0 && d.A != sys.DbIdent && c.oneIn(2) {
				return types.LookupRef{A: w.aref(by, depth+1), V: w.raw(d.V).(types.Value)}
			}
		}
	}
	return types.LookupRef{A: w.aref(w.sc.attrs[sys.DbIdent], depth+1), V: types.String(a.Ident)}
}

func (w *world) vref(v val) types.VRef {
	if v.K == kRef && len(w.sc.byE[types.ID(v.N)]) > 0 && w.c.oneIn(2) {
		return w.idref(types.ID(v.N)).(types.VRef)
	}
	return w.raw(v)
}

func (w *world) claim(e types.ERef, a *attrInfo, v types.VRef, retract bool) types.Claim {
	return types.Claim{E: e, A: w.aref(a, 0), V: v, Retract: retract}
}

// --- rendering

func renderRef(x any) string {
	switch r := x.(type) {
	case nil:
		return "nil"
	case types.ID:
		return fmt.Sprintf("#%d", uint64(r))
	case types.Ident:
		return fmt.Sprintf("Ident(%q)", trim(string(r), 60))
	case types.TempID:
		return fmt.Sprintf("TempID(%q)", string(r))
	case types.TxnID:
		return "TxnID"
	case types.LookupRef:
		return fmt.Sprintf("Lookup{%s, %s}", renderRef(r.A), renderRef(r.V))
	}
	if v := fromValue(x); v.K != kNone {
		return v.String()
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

func renderClaim(c types.Claim) string {
	sign := "+"
	if c.Retract {
		sign = "-"
	}
	return fmt.Sprintf("%s[%s %s %s]", sign, renderRef(c.E), renderRef(c.A), renderRef(c.V))
}

func renderReq(req types.Request) string {
	var b strings.Builder
	for _, r := range req.Retractions {
		var refs []string
		for ref := range r.Constraints {
			refs = append(refs, renderRef(ref))
		}
		sort.Strings(refs)
		fmt.Fprintf(&b, " --{%s}", strings.Join(refs, ", "))
	}
	for _, c := range req.Claims {
		b.WriteString(" " + renderClaim(c))
	}
	return strings.TrimSpace(b.String())
}

// --- writing under observation

// heldSnapshot is a snapshot with what it answered when it was first seen.
type heldSnapshot struct {
	snap types.Snapshot
	dig  string
	st   state
	when string
}

// div reports a divergence as a violation if it breaks the property being checked.
func (w *world) div(props string, f string, args ...any) {
	for _, p := range strings.Fields(props) {
		if w.all || p == w.c.check.id {
			w.c.violated(f, args...)
			return
		}
	}
	w.c.count("divergences of other properties", 1)
}

var reasonProps = map[reason]string{
	rUnresolved: "C09", rType: "C09", rUnique: "C06", rTempid: "C07", rValueTemp: "C06 C07",
	rCard: "C08", rAttr: "C11", rSystem: "C12", rRetraction: "C17",
}

// features names the properties on which a request depends.
func (w *world) features(req types.Request, sc *schema) (props map[string]bool) {
	props = map[string]bool{}
	ref := func(x any) {
		switch x.(type) {
		case types.Ident:
			props["C15"] = true
		case types.LookupRef:
			props["C16"] = true
		case types.TempID:
			props["C07"] = true
		}
	}
	if len(req.Retractions) > 0 {
		props["C17"] = true
	}
	for _, r := range req.Retractions {
		for x := range r.Constraints {
			ref(x)
		}
	}
	for _, cl := range req.Claims {
		ref(cl.E)
		ref(cl.A)
		ref(cl.V)
		switch a := sc.attrs[resolveIDRef(sc, cl.A, 0)]; {
		case a == nil:
		case a.ID == sys.DbIdent:
			props["C15"] = true
		case a.ID < 20:
			props["C11"] = true
		case a.Unique != 0:
			props["C06"] = true
		}
		props["C08"] = true
		if v := fromValue(cl.V); v.K != kNone {
			props["C09"], props["C10"] = true, true
		}
	}
	return
}

func join(props map[string]bool) string {
	var out []string
	for p := range props {
		out = append(out, p)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func renderState(l []eav) string {
	var out []string
	for i, d := range l {
		if i == 12 {
			out = append(out, fmt.Sprintf("... %d more", len(l)-i))
			break
		}
		out = append(out, d.String())
	}
	return strings.Join(out, " ")
}

// write makes a request and checks everything about its outcome.
func (w *world) write(req types.Request) *written {
	c := w.c
	pre, sc := w.st, w.sc
	o := step(pre, sc, w, req)
	full := renderReq(req)
	before := trim(full, 700)
	wr := &written{req: req, o: o, pre: pre, preSc: sc}
	w.last = wr
	c.log("write %s", full)
	if !c.guarded("Write", func() { wr.res = w.db.Write(req) }) {
		return wr
	}
	res := wr.res
	wr.accepted = res.Error == nil
	c.count("writes", 1)
	if after := renderReq(req); after != full {
		w.div("C28", "the write changed the request from\n  %s\nto\n  %s", before, after)
	}
	if res.Snapshot == nil || reflect.ValueOf(res.Snapshot).IsNil() {
		w.div("C03 C04 C25", "the response to %s has no snapshot (error %v)", before, res.Error)
		w.refresh(nil)
		return wr
	}
	var post, now state
	var dups int
	if !c.guarded("reading the response's snapshot", func() { post, dups = dump(res.Snapshot) }) ||
		!c.guarded("reading the database", func() { now, _ = dump(w.db.Read()) }) {
		return wr
	}
	psc := post.schema()
	w.st, w.sc = post, psc
	c.count("datums compared", len(post))
	if m, e, r := diffStates(post, now, true); len(m)+len(e)+len(r) > 0 {
		w.div("C03 C04 C05", "after %s a read differs from the response's snapshot: missing %s extra %s changed %s", before, renderState(m), renderState(e), renderState(r))
	}
	if dups > 0 {
		w.div("C05 C13 C14", "a scan yields %d datums twice", dups)
	}
	c.log("  -> id %d tempids %v error %v", res.ID, res.TempIDs, res.Error)

	if !wr.accepted {
		c.count("rejected", 1)
		c.feature("rejected " + firstReason(o))
		if res.ID != 0 || len(res.TempIDs) != 0 {
			w.div("C04", "the rejection of %s reports transaction %d and tempids %v", before, res.ID, res.TempIDs)
		}
		if o.mustAccept() {
			w.div("C05 "+join(w.features(req, sc)), "rejected %s, which is valid: %v", before, res.Error)
		}
		if m, e, r := diffStates(pre, post, true); len(m)+len(e)+len(r) > 0 {
			w.div("C04 C05", "the rejection of %s changed the database: lost %s gained %s changed %s", before, renderState(m), renderState(e), renderState(r))
		}
		for _, r := range []reason{rUnresolved, rType, rUnique, rTempid, rValueTemp, rCard, rAttr, rSystem, rRetraction} {
			if _, ok := o.reject[r]; ok {
				c.count("rejected for "+string(r), 1)
			}
		}
	} else {
		c.count("accepted", 1)
		if o.mustReject() {
			props := ""
			for r := range o.reject {
				props += reasonProps[r] + " "
				if r == rUnresolved || r == rRetraction {
					props += join(w.features(req, sc)) + " "
				}
			}
			if o.keeps {
				props += "C17 "
			}
			w.div(props, "accepted %s, which must be rejected (%s)", before, o.reasons())
		} else {
			w.accepted(wr, before, post)
		}
		if res.ID <= w.highest && res.ID != 0 && len(w.given) > 0 || res.ID == 0 || w.given[res.ID] || len(pre.schemaE(sc, res.ID)) > 0 {
			w.div("C18", "the transaction id %d was not new (highest issued %d)", res.ID, w.highest)
		}
		for i, cl := range req.Claims {
			// Ids grow, so these had not been issued when they were used.
			if e, ok := cl.E.(types.ID); ok && e >= res.ID && !w.given[e] && len(pre.schemaE(sc, e)) == 0 {
				w.div("C09", "transaction %d accepted claim %d of %s, whose entity had not been issued", res.ID, i, before)
				break
			}
		}
		w.give(res.ID)
		for _, id := range res.TempIDs {
			w.give(id)
		}
		for d := range post {
			if _, ok := pre[d]; !ok {
				w.give(d.E)
			}
		}
		w.track(pre, post)
	}
	w.invariants(post, psc, res.Snapshot, before)
	w.views(wr, post, psc, res.Snapshot, before)
	return wr
}

func (s state) schemaE(sc *schema, e types.ID) []eav { return sc.byE[e] }

func firstReason(o *outcome) string {
	var rs []string
	for r := range o.reject {
		rs = append(rs, string(r))
	}
	sort.Strings(rs)
	return strings.Join(rs, "+")
}

func (w *world) give(id types.ID) {
	if id >= sys.FirstUserID {
		w.given[id] = true
		if id > w.highest {
			w.highest = id
		}
	}
}

func (w *world) track(pre, post state) {
	gone := map[types.ID]bool{}
	for d := range pre {
		if _, ok := post[d]; !ok {
			w.lost = append(w.lost, d)
			if len(w.sc.byE[d.E]) == 0 && !gone[d.E] {
				gone[d.E] = true
			}
		}
	}
	for e := range gone {
		w.retired = append(w.retired, e)
	}
	sort.Slice(w.retired, func(i, j int) bool { return w.retired[i] < w.retired[j] })
	sort.Slice(w.lost, func(i, j int) bool { return lessEAV(w.lost[i], w.lost[j]) })
	if len(w.lost) > 60 {
		w.lost = w.lost[len(w.lost)-60:]
	}
}

// accepted checks the effects of an accepted write.
func (w *world) accepted(wr *written, before string, post state) {
	c, o, res, pre := w.c, wr.o, wr.res, wr.pre
	if o.loose {
		return
	}
	c.count("accepted as modelled", 1)
	temps := map[types.TempID]bool{}
	for _, t := range o.temps {
		temps[t] = true
		if _, ok := res.TempIDs[t]; !ok {
			w.div("C07", "%s: tempid %q is not in the response", before, t)
			return
		}
	}
	for t := range res.TempIDs {
		if !temps[t] {
			w.div("C07", "%s: the response has a tempid %q which was not used", before, t)
		}
	}
	byID := map[types.ID]types.TempID{}
	bad := false
	for _, class := range o.classes {
		id := res.TempIDs[class[0]]
		for _, t := range class {
			if res.TempIDs[t] != id {
				w.div("C07", "%s: tempids %q and %q denote one entity but are %d and %d", before, class[0], t, id, res.TempIDs[t])
				bad = true
			}
			want, ok := o.bound[t]
			if o.txnTemps[t] {
				want, ok = res.ID, true
			}
			switch {
			case ok && want != id:
				w.div("C07 C06 C16", "%s: tempid %q denotes %d but is %d", before, t, want, id)
				bad = true
			case !ok && (w.given[id] || len(wr.preSc.byE[id]) > 0 || id < sys.FirstUserID || id == res.ID):
				w.div("C07 C18", "%s: tempid %q is a new entity but has the id %d, which is not new", before, t, id)
				bad = true
			}
			if ok {
				c.count("tempids bound to extant entities", 1)
				c.feature("bound tempid")
			}
		}
		if len(class) > 1 {
			c.count("tempids unified", 1)
			c.feature("unified tempids")
		}
		if other, ok := byID[id]; ok {
			w.div("C07", "%s: tempids %q and %q are different entities but both %d", before, other, class[0], id)
			bad = true
		}
		byID[id] = class[0]
	}
	if bad {
		return
	}
	want, free, _ := o.build(res.TempIDs, res.ID)
	missing, extra, retimed := diffStates(want, post, true)
	keep := func(l []eav) (out []eav) {
		for _, d := range l {
			if !free[ea{d.E, d.A}] {
				out = append(out, d)
			}
		}
		return
	}
	missing, extra, retimed = keep(missing), keep(extra), keep(retimed)
	if len(missing)+len(extra) > 0 {
		props := map[string]bool{"C05": true}
		if len(wr.req.Retractions) > 0 {
			props["C17"] = true
		}
		classify := func(d eav) {
			a := wr.preSc.attrs[d.A]
			switch {
			case d.E < sys.FirstUserID:
				props["C12"] = true
			case wr.preSc.attrs[d.E] != nil:
				props["C11"] = true
			}
			if d.A == sys.DbIdent {
				props["C15"] = true
			}
			if _, ok := byID[d.E]; ok || d.V.K == kRef && byID[types.ID(d.V.N)] != "" {
				props["C07"] = true
			}
			if a != nil {
				props["C08"] = true
				if a.Unique != 0 {
					props["C06"] = true
				}
			}
			// References which resolved elsewhere put the datum on another entity.
			for p := range w.features(wr.req, wr.preSc) {
				if p == "C16" || p == "C15" {
					props[p] = true
				}
			}
		}
		for _, d := range missing {
			classify(d)
			for _, x := range extra {
				if x.E == d.E && x.A == d.A {
					if _, ok := pre[x]; !ok {
						props["C10"] = true
					}
				}
			}
			if d.V.K != kNone {
				if _, ok := pre[d]; !ok {
					props["C10"] = true
				}
			}
		}
		for _, d := range extra {
			classify(d)
		}
		w.div(join(props), "%s (id %d, tempids %v): the database lacks %s and has %s besides", before, res.ID, res.TempIDs, renderState(missing), renderState(extra))
	}
	if len(retimed) > 0 {
		d := retimed[0]
		w.div("C18 C05", "%s (id %d): %s is of transaction %d rather than %d", before, res.ID, d, post[d], want[d])
	}
	added, removed := 0, 0
	for d := range post {
		if _, ok := pre[d]; !ok {
			added++
		}
	}
	for d := range pre {
		if _, ok := post[d]; !ok {
			removed++
		}
	}
	c.count("datums added", added)
	c.count("datums removed", removed)
	if added+removed == 0 {
		c.count("writes of no effect", 1)
	}
	if len(o.flex) == 0 {
		c.count("outcomes fully determined", 1)
	}
}

// invariants checks what is true of every state.
func (w *world) invariants(post state, sc *schema, snap types.Snapshot, before string) {
	c := w.c
	held := map[av]types.ID{}
	ones := map[ea]eav{}
	for d := range post {
		a := sc.attrs[d.A]
		if a == nil {
			w.div("C09", "%s: datum %s has an undeclared attribute", before, d)
			continue
		}
		if a.K != d.V.K {
			w.div("C09", "%s: datum %s is not of type %s", before, d, a.K)
		}
		if a.Unique != 0 {
			k := av{d.A, d.V}
			if h, ok := held[k]; ok {
				w.div("C06", "%s: %d and %d both hold %s for unique attribute %q", before, h, d.E, d.V, a.Ident)
			}
			held[k] = d.E
		}
		if !a.Many {
			k := ea{d.E, d.A}
			if o, ok := ones[k]; ok {
				w.div("C08", "%s: entity %d has both %s and %s for the single-valued %q", before, d.E, o.V, d.V, a.Ident)
			}
			ones[k] = d
		}
	}
	for id, a := range sc.attrs {
		switch {
		case a.Ident == "" && id != sys.TxAt:
			if _, ok := sc.idents[""]; !ok {
				w.div("C11", "%s: attribute %d has no ident", before, id)
			}
		case a.Card != 0 && a.Card != sys.AttrCardinalityOne && a.Card != sys.AttrCardinalityMany:
			w.div("C11", "%s: attribute %d has cardinality %d", before, id, a.Card)
		case a.Unique != 0 && a.Unique != sys.AttrUniqueIdentity && a.Unique != sys.AttrUniqueValue:
			w.div("C11", "%s: attribute %d has uniqueness %d", before, id, a.Unique)
		}
	}
	for d := range post {
		// Half declared attributes have some of these without a type.
		if (d.A == sys.AttrType || d.A == sys.AttrCardinality || d.A == sys.AttrUnique) && sc.attrs[d.E] == nil {
			w.div("C11", "%s: entity %d has %s but is no attribute", before, d.E, d)
		}
	}
	w.systemIntact(post, before)
	// Names.
	c.guarded("resolving idents", func() {
		for name, e := range sc.idents {
			if got := snap.ResolveIdent(types.Ident(name)); got != e {
				w.div("C15 C11", "%s: ident %q is held by %d but resolves to %d", before, name, e, got)
			}
		}
		for _, name := range w.names {
			if got := snap.ResolveIdent(types.Ident(name)); got != sc.idents[name] {
				w.div("C15", "%s: ident %q is held by %d but resolves to %d", before, name, sc.idents[name], got)
			}
		}
		for _, d := range w.lost {
			if d.A == sys.DbIdent {
				if got := snap.ResolveIdent(types.Ident(d.V.S)); got != sc.idents[d.V.S] {
					w.div("C15", "%s: ident %q is held by %d but resolves to %d", before, d.V.S, sc.idents[d.V.S], got)
				}
			}
		}
		for id, a := range sc.attrs {
			if got := snap.ResolveAttrIdent(id); string(got) != a.Ident {
				w.div("C15 C11", "%s: attribute %d has ident %q but resolves to %q", before, id, a.Ident, got)
			}
		}
		for i, e := range w.entities() {
			if i > 8 {
				break
			}
			if got := snap.ResolveAttrIdent(e); got != "" {
				w.div("C15", "%s: entity %d is no attribute but resolves to %q", before, e, got)
			}
		}
		c.count("idents resolved", len(sc.idents))
	})
}

// views checks that the datums a write touched look the same from every side.
func (w *world) views(wr *written, post state, sc *schema, snap types.Snapshot, before string) {
	c := w.c
	touched := map[eav]bool{}
	for d := range post {
		if _, ok := wr.pre[d]; !ok {
			touched[d] = true
		}
	}
	for d := range wr.pre {
		if _, ok := post[d]; !ok {
			touched[d] = true
		}
	}
	es, as := map[types.ID]bool{}, map[types.ID]bool{}
	for d := range touched {
		es[d.E] = true
		as[d.A] = true
	}
	byA := map[types.ID][]eav{}
	for d := range post {
		byA[d.A] = append(byA[d.A], d)
	}
	props := "C05 C13 C08 C10"
	if len(wr.req.Retractions) > 0 {
		props += " C17"
	}
	if !wr.accepted {
		props += " C04"
	}
	check := func(what string, claim types.Claim, want []eav) {
		var got []eav
		wt := map[eav]bool{}
		for _, d := range want {
			wt[d] = true
		}
		ok := true
		for d := range snap.Select(claim) {
			k := eav{d.E, d.A, fromValue(d.V)}
			got = append(got, k)
			if !wt[k] {
				ok = false
			}
			if t := post[k]; wt[k] && t != d.T {
				w.div("C18 C13 C05", "%s: by %s %s is of transaction %d, by a full scan of %d", before, what, k, d.T, t)
			}
		}
		if !ok || len(got) != len(want) {
			w.div(props, "%s: by %s there are %s, by a full scan %s", before, what, renderState(got), renderState(want))
		}
		if n := snap.Count(claim); n != len(want) {
			w.div(props, "%s: by %s there are %d, by a full scan %d", before, what, n, len(want))
		}
		if h := snap.Has(claim); h != (len(want) > 0) {
			w.div(props, "%s: by %s it has any: %v, by a full scan there are %d", before, what, h, len(want))
		}
		c.count("views compared", 1)
	}
	c.guarded("querying", func() {
		for e := range es {
			check(fmt.Sprintf("entity %d", e), types.Claim{E: e}, sc.byE[e])
		}
		for a := range as {
			check(fmt.Sprintf("attribute %d", a), types.Claim{A: a}, byA[a])
		}
		for d := range touched {
			var mine, held []eav
			for _, x := range sc.byE[d.E] {
				if x.A == d.A {
					mine = append(mine, x)
				}
			}
			check(fmt.Sprintf("entity %d and attribute %d", d.E, d.A), types.Claim{E: d.E, A: d.A}, mine)
			for _, x := range byA[d.A] {
				if x.V == d.V {
					held = append(held, x)
				}
			}
			check(fmt.Sprintf("attribute %d and value %s", d.A, d.V), types.Claim{A: d.A, V: d.V.vref()}, held)
			_, has := post[d]
			if got := snap.Has(types.Claim{E: d.E, A: d.A, V: d.V.vref()}); got != has {
				w.div(props, "%s: it has %s: %v, but a full scan: %v", before, d, got, has)
			}
			if a := sc.attrs[d.A]; a != nil && a.Unique != 0 {
				want := sc.byE[sc.holder[av{d.A, d.V}]]
				n := snap.Count(types.Claim{E: types.LookupRef{A: d.A, V: d.V.value()}})
				if n != len(want) {
					w.div("C16 C06 C13", "%s: looking up %d %s finds %d datums where its holder has %d", before, d.A, d.V, n, len(want))
				}
				c.count("lookups compared", 1)
			}
		}
	})
}

var systemState state

func (w *world) systemIntact(post state, before string) {
	n := 0
	for d, t := range post {
		if d.E < sys.FirstUserID {
			n++
			want, ok := systemState[d]
			if !ok {
				w.div("C12 C05", "%s: the system gained %s", before, d)
			} else if want != t {
				w.div("C12", "%s: the system's %s is of transaction %d", before, d, t)
			}
		}
	}
	if n < len(systemState) {
		for d := range systemState {
			if _, ok := post[d]; !ok {
				w.div("C12 C05", "%s: the system lost %s", before, d)
			}
		}
	}
}
