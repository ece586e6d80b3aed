package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// Struct types share one universe of attributes, so that any entity may be loaded as any
// of them. The database is observed only through its public interface: probes are structs
// with every attribute.

type family struct {
	typ   reflect.Type
	plain bool
	// open types a snapshot, whose finder's nil any is no entity
	open func(snap *public.Snapshot) (finder, error)
}

type finder func(id uint64) any

// opened is a snapshot typed as a family.
type opened struct {
	snap *public.Snapshot
	f    *family
}

// find finds an entity as a family, in a snapshot typed anew or before.
func (f *family) find(c *cse, snap *public.Snapshot, id uint64) (any, error) {
	key := opened{snap, f}
	if g := c.opened[key]; g != nil && !c.oneIn(3) {
		c.count("finds by snapshots typed before", 1)
		return g(id), nil
	}
	g, err := f.open(snap)
	if err != nil {
		return nil, err
	}
	if c.opened == nil {
		c.opened = map[opened]finder{}
	}
	c.opened[key] = g
	return g(id), nil
}

var families []*family
var familyOf = map[reflect.Type]*family{}

func familyFor[T any](plain bool) *family {
	return &family{typ: reflect.TypeFor[T](), plain: plain, open: func(snap *public.Snapshot) (finder, error) {
		ts, err := public.BuildTypedSnapshot[T](snap)
		if err != nil {
			return nil, err
		}
		return func(id uint64) any {
			x := ts.Find(id)
			if x == nil {
				return nil
			}
			return x
		}, nil
	}}
}

func registerFamily[T any](plain bool) {
	f := familyFor[T](plain)
	families = append(families, f)
	familyOf[f.typ] = f
}

// Types with every kind of cycle.
type knot struct {
	ID     uint64           `attr:"sys/db/id"`
	Name   string           `attr:"u/str/0"`
	Next   *knot            `attr:"u/ref/0"`
	Prev   *knot            `attr:"u/ref/1"`
	Inner  wrap             `attr:"u/ref/2"`
	Kids   []wrap           `attr:"u/slice/0"`
	Peers  map[string]*knot `attr:"u/map/str,key=u/str/0"`
	Wraps  map[int]wrap     `attr:"u/map/int,key=u/int/0"`
	Scores []float64        `attr:"u/list/float,value=u/item/float"`
}

type wrap struct {
	N   int   `attr:"u/int/0"`
	To  *knot `attr:"u/ref/3"`
	Sub *wrap `attr:"u/ref/0"`
}

type ring struct {
	Next *ring  `attr:"u/ref/0"`
	Key  string `attr:"u/str/identity,identity"`
	ID   uint64 `attr:"sys/db/id"`
}

type owner struct {
	Ring  ring    `attr:"u/ref/1"`
	Rings *ring   `attr:"u/ref/2"`
	Self  *owner  `attr:"u/ref/3"`
	Code  *int    `attr:"u/int/identity,identity"`
	Badge *string `attr:"u/str/unique,unique"`
	Name  string  `attr:"u/str/1"`
}

// Embedded fields are as others.
type Embedded struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"u/int/0"`
	S  string `attr:"u/str/1"`
	To *wrap  `attr:"u/ref/1"`
}

type Embraced struct {
	Embedded `attr:"u/ref/2"`
	Name     string `attr:"u/str/0"`
}

type embedder struct {
	Embedded  // not the database's business
	*Embraced `attr:"u/ref/0"`
	Self      *embedder `attr:"u/ref/3"`
	Flag      bool      `attr:"u/bool/0"`
	Key       *int      `attr:"u/int/identity,identity"`
}

// Types of pointers, slices and maps may have names.
type (
	wrapPointer *wrap
	wrapSlice   []wrap
	wrapMap     map[int]*wrap
	intPointer  *int
	knotPointer *knot
	strSlice    []string
)

type naming struct {
	To     wrapPointer            `attr:"u/ref/0"`
	Also   *wrap                  `attr:"u/ref/1"`
	Kids   wrapSlice              `attr:"u/slice/0"`
	Peers  wrapMap                `attr:"u/map/int,key=u/int/0"`
	N      intPointer             `attr:"u/int/1"`
	Labels strSlice               `attr:"u/list/str,value=u/item/str"`
	Knots  map[string]knotPointer `attr:"u/map/str,key=u/str/0"`
	Knot   *knot                  `attr:"u/ref/2"`
	S      string                 `attr:"u/str/0"`
	ID     uint64                 `attr:"sys/db/id"`
}

func init() {
	registerFamily[Embraced](true)
	registerFamily[embedder](false)
	registerFamily[naming](true)
	registerFamily[knot](true)
	registerFamily[wrap](true)
	registerFamily[ring](false)
	registerFamily[owner](false)
	registerFamily[knot](true)
	registerFamily[ring](false)
}

// lite is an entity as known by its id.
type lite struct {
	ID uint64 `attr:"sys/db/id"`
}

// universe is every attribute a family may have, with stand-in ids.
var universe = map[string]*attrInfo{}
var universeByID = map[types.ID]*attrInfo{}
var universeState = state{}

func init() {
	typ := reflect.TypeFor[probe]()
	for i := range typ.NumField() {
		f := typ.Field(i)
		ident := f.Tag.Get("attr")
		a := &attrInfo{ID: 1<<50 + types.ID(i), Ident: ident}
		if strings.HasPrefix(ident, "sys/") {
			if ident != "sys/db/rank" {
				continue
			}
			a.ID, a.K = sys.DbRank, kInt
			universe[ident], universeByID[a.ID] = a, a
			continue
		}
		a.K = kRef
		if f.Type.Kind() == reflect.Pointer {
			a.K = scalarKindOf(f.Type.Elem())
		}
		switch parts := strings.Split(ident, "/"); parts[1] {
		case "slice", "map", "list":
			a.Many, a.Card = true, sys.AttrCardinalityMany
		default:
			switch parts[len(parts)-1] {
			case "identity":
				a.Unique = sys.AttrUniqueIdentity
			case "unique":
				a.Unique = sys.AttrUniqueValue
			}
		}
		universe[ident], universeByID[a.ID] = a, a
		universeState[eav{a.ID, sys.DbIdent, vstr(ident)}] = a.ID
		universeState[eav{a.ID, sys.AttrType, vref(a.K.typeID())}] = a.ID
		if a.Many {
			universeState[eav{a.ID, sys.AttrCardinality, vref(a.Card)}] = a.ID
		}
		if a.Unique != 0 {
			universeState[eav{a.ID, sys.AttrUnique, vref(a.Unique)}] = a.ID
		}
	}
}

// --- tags, read independently of the database

type tagged struct {
	index       int
	ident       string
	unique      bool // of either sort
	identity    bool
	ignoreEmpty bool
	key         string
	value       string
}

var taggedOf = map[reflect.Type][]tagged{}

func tagsOf(typ reflect.Type) []tagged {
	if out, ok := taggedOf[typ]; ok {
		return out
	}
	var out []tagged
	for i := range typ.NumField() {
		tag, ok := typ.Field(i).Tag.Lookup("attr")
		if !ok {
			continue
		}
		parts := strings.Split(tag, ",")
		t := tagged{index: i, ident: parts[0]}
		for _, p := range parts[1:] {
			switch {
			case p == "identity":
				t.unique, t.identity = true, true
			case p == "unique":
				t.unique = true
			case p == "ignoreempty":
				t.ignoreEmpty = true
			case strings.HasPrefix(p, "key="):
				t.key = p[4:]
			case strings.HasPrefix(p, "value="):
				t.value = p[6:]
			}
		}
		out = append(out, t)
	}
	return out
}

func init() {
	// Filled in advance since cases run concurrently.
	all := map[reflect.Type][]tagged{}
	for _, f := range families {
		all[f.typ] = tagsOf(f.typ)
	}
	for _, t := range []reflect.Type{reflect.TypeFor[probe](), reflect.TypeFor[lite]()} {
		all[t] = tagsOf(t)
	}
	taggedOf = all
}

var timeType = reflect.TypeFor[time.Time]()

// scalarKindOf is the kind of value of a scalar type.
func scalarKindOf(t reflect.Type) kind {
	switch t.Kind() {
	case reflect.String:
		return kStr
	case reflect.Int:
		return kInt
	case reflect.Bool:
		return kBool
	case reflect.Float64:
		return kFloat
	}
	if t != timeType {
		bug("no scalar: %s", t)
	}
	return kInst
}

func isScalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Bool, reflect.Float64:
		return true
	}
	return t == timeType
}

// scalarOf is the value of a scalar field.
func scalarOf(v reflect.Value) val {
	switch v.Kind() {
	case reflect.String:
		return vstr(v.String())
	case reflect.Int:
		return vint(v.Int())
	case reflect.Bool:
		return vbool(v.Bool())
	case reflect.Float64:
		return vfloat(v.Float())
	}
	if v.Type() == timeType {
		return vinst(v.Interface().(time.Time).UnixMilli())
	}
	bug("no scalar: %s", v.Type())
	return val{}
}

func setScalarTo(v reflect.Value, x val) {
	switch x.K {
	case kStr:
		v.SetString(x.S)
	case kInt:
		v.SetInt(int64(x.N))
	case kBool:
		v.SetBool(x.N == 1)
	case kFloat:
		v.SetFloat(math.Float64frombits(x.N))
	case kInst:
		v.Set(reflect.ValueOf(time.UnixMilli(int64(x.N)).UTC()))
	}
}

func emptyScalar(v reflect.Value) bool {
	if v.Type() == timeType {
		return v.Interface().(time.Time).IsZero()
	}
	return v.Kind() == reflect.Float64 && v.Float() == 0 || v.IsZero()
}

// --- the reference shredder

type shred struct {
	claims []types.Claim
	temps  int
	seen   map[any]types.ERef // by pointer
	// errors are reasons for which the struct layer itself must refuse
	errors []string
	// collections by the temporary entities in them
	entry map[types.TempID]string
}

type pointerKey struct {
	p uintptr
	t reflect.Type
}

func (s *shred) temp() types.TempID {
	s.temps++
	return types.TempID(fmt.Sprint("x", s.temps))
}

// entity states what a struct says, and names the entity.
func (s *shred) entity(v reflect.Value) types.ERef {
	var e types.ERef
	if v.Kind() == reflect.Pointer {
		k := pointerKey{v.Pointer(), v.Type().Elem()}
		if e, ok := s.seen[k]; ok {
			return e
		}
		e = s.nameOf(v.Elem())
		s.seen[k] = e
		v = v.Elem()
	} else {
		e = s.nameOf(v)
	}
	say := func(ident string, x types.VRef) {
		s.claims = append(s.claims, types.Claim{E: e, A: universe[ident].ID, V: x})
	}
	for _, t := range tagsOf(v.Type()) {
		f := v.Field(t.index)
		switch {
		case t.ident == "sys/db/id":
		case isScalar(f.Type()):
			if t.ignoreEmpty && emptyScalar(f) {
				continue
			}
			say(t.ident, scalarOf(f).vref())
		case f.Kind() == reflect.Pointer && isScalar(f.Type().Elem()):
			if f.IsNil() || t.ignoreEmpty && emptyScalar(f.Elem()) {
				continue
			}
			say(t.ident, scalarOf(f.Elem()).vref())
		case f.Kind() == reflect.Pointer:
			if !f.IsNil() {
				say(t.ident, s.entity(f).(types.VRef))
			}
		case f.Kind() == reflect.Struct:
			say(t.ident, s.entity(f).(types.VRef))
		case f.Kind() == reflect.Slice && t.value != "":
			for i := range f.Len() {
				x := s.temp()
				s.claims = append(s.claims,
					types.Claim{E: x, A: types.ID(sys.DbRank), V: types.Int(i)},
					types.Claim{E: x, A: universe[t.value].ID, V: scalarOf(f.Index(i)).vref()})
				say(t.ident, x)
			}
		case f.Kind() == reflect.Slice:
			for i := range f.Len() {
				x := s.entity(f.Index(i))
				s.claims = append(s.claims, types.Claim{E: x, A: types.ID(sys.DbRank), V: types.Int(i)})
				say(t.ident, x.(types.VRef))
			}
		case f.Kind() == reflect.Map:
			for it := f.MapRange(); it.Next(); {
				say(t.ident, s.entity(it.Value()).(types.VRef))
			}
		default:
			bug("field %s of %s", f.Type(), v.Type())
		}
	}
	return e
}

func (s *shred) nameOf(v reflect.Value) types.ERef {
	for _, t := range tagsOf(v.Type()) {
		if t.ident == "sys/db/id" {
			if id := v.Field(t.index).Uint(); id != 0 {
				return types.ID(id)
			}
		}
	}
	return s.temp()
}

func (s *shred) retraction(v reflect.Value) types.Retraction {
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	r := types.Retraction{Constraints: map[types.IDRef]types.Void{}}
	for _, t := range tagsOf(v.Type()) {
		f := v.Field(t.index)
		if t.ident == "sys/db/id" {
			if id := f.Uint(); id != 0 {
				r.Constraints[types.ID(id)] = types.Void{}
			}
			continue
		}
		if !t.unique {
			continue
		}
		if f.Kind() == reflect.Pointer {
			if f.IsNil() {
				continue
			}
			f = f.Elem()
		}
		if t.ignoreEmpty && emptyScalar(f) {
			continue
		}
		r.Constraints[types.LookupRef{A: universe[t.ident].ID, V: scalarOf(f).value()}] = types.Void{}
	}
	return r
}

// --- probing

// structWorld is a database of structs under a monitored history.
type structWorld struct {
	c     *cse
	db    public.Database
	st    state // the datums of the user's entities, by stand-in attributes
	attrs state // the declarations, by their actual entities
	// idents are the actual ids of attributes
	idents map[string]types.ID
	tail   types.ID          // how far to look past the ids known
	absent map[types.ID]bool // ids which had no facts when greater ones were issued
	// hidden are refs to entities without facts, which probes do not show
	hidden  map[ea]bool
	given   map[types.ID]bool
	highest types.ID
	fill    *filler
	steps   int
}

func newStructWorld(c *cse) *structWorld {
	w := &structWorld{c: c, given: map[types.ID]bool{}, highest: sys.FirstUserID, st: state{}, attrs: state{}, idents: map[string]types.ID{}, hidden: map[ea]bool{}, absent: map[types.ID]bool{}, tail: 50}
	if !c.guarded("NewDatabase", func() {
		w.db = public.NewDatabase(public.Config{Degree: pick(c, degrees), AttrsSize: c.IntN(2) * 32, IdentsSize: c.IntN(2) * 32})
	}) {
		return nil
	}
	w.fill = &filler{c: c, w: w}
	return w
}

func (w *structWorld) div(props string, f string, args ...any) {
	for _, p := range strings.Fields(props) {
		if p == w.c.check.id {
			w.c.violated(f, args...)
			return
		}
	}
	w.c.count("divergences of other properties", 1)
}

func (w *structWorld) issued(id types.ID) (yes, unclear bool) {
	switch {
	case id == 0:
		return false, false
	case id < sys.FirstUserID:
		return id <= 19, false
	case w.given[id]:
		return true, false
	case id > w.highest+2000:
		return false, false
	}
	return false, true
}

// read probes every entity there may be.
func (w *structWorld) read(snap *public.Snapshot) (st, attrs state, ok bool) {
	c := w.c
	st, attrs = state{}, state{}
	ok = c.guarded("Find", func() {
		ts, err := public.BuildTypedSnapshot[probe](snap)
		if err != nil {
			bug("probe: %v", err)
		}
		typ := reflect.TypeFor[probe]()
		// Ids long passed over are not all probed every time.
		full := c.oneIn(8)
		end := w.highest
		for id := sys.FirstUserID; id <= end+w.tail; id++ {
			if w.absent[id] && !full {
				continue
			}
			p := ts.Find(uint64(id))
			if p == nil {
				if id < w.highest {
					w.absent[id] = true
				}
				continue
			}
			delete(w.absent, id)
			end = max(end, id)
			v := reflect.ValueOf(p).Elem()
			for i := range typ.NumField() {
				f := v.Field(i)
				if f.IsNil() {
					continue
				}
				ident := typ.Field(i).Tag.Get("attr")
				into, a := st, types.ID(0)
				switch ident {
				case "sys/db/ident":
					into, a = attrs, sys.DbIdent
				case "sys/attr/type":
					into, a = attrs, sys.AttrType
				case "sys/attr/cardinality":
					into, a = attrs, sys.AttrCardinality
				case "sys/attr/unique":
					into, a = attrs, sys.AttrUnique
				default:
					a = universe[ident].ID
				}
				if f.Kind() == reflect.Map {
					for it := f.MapRange(); it.Next(); {
						to := types.ID(it.Key().Uint())
						into[eav{id, a, vref(to)}] = 0
						if to < 1<<40 {
							end = max(end, to)
						}
					}
				} else {
					into[eav{id, a, scalarOf(f.Elem())}] = 0
				}
			}
			c.count("entities probed", 1)
		}
	})
	return
}

func (w *structWorld) model() (state, *schema) {
	pre := w.st.clone()
	for d := range systemState {
		pre[d] = 0
	}
	for d := range universeState {
		pre[d] = 0
	}
	return pre, pre.schema()
}

// --- writing under observation

type structWrite struct {
	req      public.Request
	res      public.Response
	accepted bool
	o        *outcome
	ids      map[types.TempID]types.ID
	roots    []types.ERef
	pre      state
	malform  string
}

// attributesOf are those a struct type and those it reaches need.
func attributesOf(typ reflect.Type, out map[string]bool, done map[reflect.Type]bool) {
	if done[typ] {
		return
	}
	done[typ] = true
	for _, t := range tagsOf(typ) {
		if t.ident == "sys/db/id" {
			continue
		}
		out[t.ident] = true
		if t.value != "" {
			out[t.value] = true
			continue
		}
		ft := typ.Field(t.index).Type
		for ft.Kind() == reflect.Pointer || ft.Kind() == reflect.Slice || ft.Kind() == reflect.Map {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Struct && ft != timeType {
			attributesOf(ft, out, done)
		}
	}
}

func structOf(x any) reflect.Type {
	t := reflect.TypeOf(x)
	if t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t
}

// plan states what a request must do.
func (w *structWorld) plan(req public.Request) (o *outcome, roots []types.ERef, s *shred, ok bool) {
	pre, sc := w.model()
	s = &shred{seen: map[any]types.ERef{}}
	var ireq types.Request
	for _, x := range req.Retractions {
		ireq.Retractions = append(ireq.Retractions, s.retraction(reflect.ValueOf(x)))
	}
	for _, x := range req.Assertions {
		roots = append(roots, s.entity(reflect.ValueOf(x)))
	}
	ireq.Claims = s.claims
	o = step(pre, sc, w, ireq)
	// Collections recorded anew for an entity which has such a collection, or twice in a
	// request, are not specified.
	node := map[types.TempID]any{}
	for i, class := range o.classes {
		for _, t := range class {
			node[t] = i
			if id, bound := o.bound[t]; bound {
				node[t] = id
			}
		}
	}
	of := func(e types.ERef) any {
		if t, is := e.(types.TempID); is {
			return node[t]
		}
		return e
	}
	type slot struct {
		e any
		a types.ID
		x string
	}
	at := map[types.TempID]string{}
	many := map[types.TempID]bool{}
	for _, cl := range s.claims {
		if t, is := cl.E.(types.TempID); is {
			if a := universeByID[cl.A.(types.ID)]; a.ID == sys.DbRank || a.Ident[len(a.Ident)-2:] == "/0" && a.K != kRef {
				at[t] += fmt.Sprint(a.Ident, cl.V, ";")
			}
		}
	}
	slots := map[slot]types.VRef{}
	for _, cl := range s.claims {
		a := universeByID[cl.A.(types.ID)]
		if a == nil || !a.Many {
			continue
		}
		e := of(cl.E)
		if id, is := e.(types.ID); is {
			for d := range w.st {
				if d.E == id && d.A == a.ID {
					return o, roots, s, false
				}
			}
		}
		t, is := cl.V.(types.TempID)
		if !is {
			continue
		}
		if many[t] && strings.HasPrefix(a.Ident, "u/slice") {
			return o, roots, s, false
		}
		many[t] = true
		for _, part := range strings.Split(at[t], ";") {
			if part == "" || strings.HasPrefix(a.Ident, "u/map/") && !strings.HasPrefix(part, "u/"+a.Ident[6:]+"/0") || !strings.HasPrefix(a.Ident, "u/map/") && !strings.HasPrefix(part, "sys/db/rank") {
				continue
			}
			k := slot{e, a.ID, part}
			if other, dup := slots[k]; dup && other != cl.V {
				return o, roots, s, false
			}
			slots[k] = cl.V
		}
	}
	return o, roots, s, true
}

// write makes a request, whose types are families, and checks everything about its outcome.
func (w *structWorld) write(req public.Request) *structWrite {
	c := w.c
	o, roots, s, ok := w.plan(req)
	if !ok {
		c.count("unspecified requests skipped", 1)
		return nil
	}
	if o.loose {
		c.count("unspecified requests skipped", 1)
		return nil
	}
	// What has no facts may have them again.
	for _, cl := range s.claims {
		if e, is := cl.E.(types.ID); is {
			delete(w.absent, e)
		}
	}
	full := renderStructs(req)
	what := full
	wr := &structWrite{req: req, o: o, roots: roots, pre: w.st, ids: map[types.TempID]types.ID{}}
	c.log("write %s", what)
	what = trim(what, 300)
	if !c.guarded("Write", func() { wr.res = w.db.Write(req) }) {
		return wr
	}
	if again := renderStructs(req); again != full {
		w.div("C28", "the write changed its structs from %s to %s", around(full, again), around(again, full))
	}
	if !w.observe(wr, what) {
		return wr
	}
	if wr.accepted {
		w.effects(wr, s, what)
	}
	return wr
}

// observe checks a response but for what an accepted write has done.
func (w *structWorld) observe(wr *structWrite, what string) bool {
	c, o, res := w.c, wr.o, wr.res
	wr.accepted = res.Error == nil
	c.log("  -> ids %v error %v", res.IDs, res.Error)
	c.count("struct writes", 1)
	w.steps++
	if res.Snap == nil {
		w.div("C25", "%s: the response has no snapshot (error %v)", what, res.Error)
		return false
	}
	for _, id := range res.IDs {
		w.give(types.ID(id))
	}
	post, attrs, ok := w.read(res.Snap)
	if !ok {
		return false
	}
	if wr.accepted && wr.malform == "" {
		// New attributes may have ids far from any other.
		have := map[string]bool{}
		for d := range attrs {
			if d.A == sys.DbIdent {
				have[d.V.S] = true
			}
		}
		need := map[string]bool{}
		for _, x := range wr.req.Assertions {
			attributesOf(structOf(x), need, map[reflect.Type]bool{})
		}
		for ident := range need {
			if !have[ident] {
				w.tail = 10000
			}
		}
		if w.tail > 50 {
			if post, attrs, ok = w.read(res.Snap); !ok {
				return false
			}
			w.tail = 50
			for d := range attrs {
				w.give(d.E)
			}
		}
	}
	preAttrs := w.attrs
	w.st, w.attrs = post, attrs
	if c.oneIn(3) {
		now, nowAttrs, ok := w.read(w.db.Read())
		if !ok {
			return false
		}
		for _, p := range [][2]state{{post, now}, {attrs, nowAttrs}} {
			if m, e, _ := diffStates(p[0], p[1], false); len(m)+len(e) > 0 {
				w.div("C25", "%s: a read differs from the response's snapshot: missing %s extra %s", what, w.render(m), w.render(e))
			}
		}
	}
	if !wr.accepted {
		c.count("struct writes rejected", 1)
		c.feature("rejected " + firstReason(o))
		if len(res.IDs) != 0 {
			w.div("C25", "%s: the rejection reports ids %v", what, res.IDs)
		}
		if m, e, _ := diffStates(wr.pre, post, false); len(m)+len(e) > 0 {
			w.div("C25", "%s: the rejection changed the database: lost %s gained %s", what, w.render(m), w.render(e))
		}
		if m, e, _ := diffStates(preAttrs, attrs, false); len(m)+len(e) > 0 {
			w.div("C25", "%s: the rejection changed the attributes: lost %s gained %s", what, w.render(m), w.render(e))
		}
		if wr.malform == "" && o.mustAccept() {
			w.div("C20 C22 C23 C24 C26 C25", "%s: rejected although valid: %v", what, res.Error)
		}
		return true
	}
	c.count("struct writes accepted", 1)
	if wr.malform != "" {
		w.div("C27 C25 C24", "%s: accepted although malformed: %s", what, wr.malform)
		return false
	}
	if o.mustReject() {
		props := "C22"
		if _, ok := o.reject[rRetraction]; ok || len(o.reject[rUnresolved]) > 0 {
			props += " C25"
		}
		w.div(props, "%s: accepted, but must be rejected (%s)", what, o.reasons())
		return false
	}
	// The declarations.
	need := map[string]bool{}
	done := map[reflect.Type]bool{}
	for _, x := range wr.req.Assertions {
		attributesOf(structOf(x), need, done)
	}
	for d := range preAttrs {
		if _, ok := attrs[d]; !ok {
			w.div("C24 C25", "%s: lost the declaration %s", what, w.render([]eav{d}))
		}
		if d.A == sys.DbIdent {
			need[d.V.S] = true
		}
	}
	want := state{}
	ids := map[string]types.ID{}
	for d := range attrs {
		if d.A == sys.DbIdent {
			ids[d.V.S] = d.E
		}
	}
	for ident := range need {
		a, e := universe[ident], ids[ident]
		if e == 0 {
			w.div("C24", "%s: attribute %q is not declared", what, ident)
			continue
		}
		w.idents[ident] = e
		w.give(e)
		want[eav{e, sys.DbIdent, vstr(ident)}] = 0
		want[eav{e, sys.AttrType, vref(a.K.typeID())}] = 0
		if a.Many {
			want[eav{e, sys.AttrCardinality, vref(a.Card)}] = 0
		}
		if a.Unique != 0 {
			want[eav{e, sys.AttrUnique, vref(a.Unique)}] = 0
		}
	}
	m, e, _ := diffStates(want, attrs, false)
	// It is the same to say of an attribute that it has cardinality one or not to.
	var odd []eav
	for _, d := range e {
		if d.A != sys.AttrCardinality || d.V != vref(sys.AttrCardinalityOne) || want == nil {
			odd = append(odd, d)
		}
	}
	if len(m)+len(odd) > 0 {
		w.div("C24 C25", "%s: the declarations lack %s and have %s besides", what, w.render(m), w.render(odd))
		return false
	}
	return true
}

// effects checks what an accepted write has done.
func (w *structWorld) effects(wr *structWrite, s *shred, what string) {
	c, o, res, post := w.c, wr.o, wr.res, w.st
	if len(res.IDs) != len(wr.req.Assertions) {
		w.div("C25", "%s: %d assertions have ids %v", what, len(wr.req.Assertions), res.IDs)
		return
	}
	byE := map[types.ID]map[types.ID][]val{}
	for d := range post {
		if byE[d.E] == nil {
			byE[d.E] = map[types.ID][]val{}
		}
		byE[d.E][d.A] = append(byE[d.E][d.A], d.V)
	}
	preE := map[types.ID]bool{}
	for d := range wr.pre {
		preE[d.E] = true
	}
	// Tempids to ids, by following the refs.
	ids := wr.ids
	classOf := map[types.TempID]int{}
	for i, class := range o.classes {
		for _, t := range class {
			classOf[t] = i
		}
	}
	bad := false
	bind := func(t types.TempID, id types.ID, how string) {
		for _, u := range o.classes[classOf[t]] {
			want, bound := o.bound[u]
			switch {
			case bound && want != id:
				w.div("C22 C23 C25", "%s: %s is %d, but must be %d", what, how, id, want)
				bad = true
			case !bound && (preE[id] || w.given[id] && ids[u] != id && how[0] != 'a'):
				w.div("C22 C23 C25", "%s: %s is %d, which is not a new entity", what, how, id)
				bad = true
			}
			if old, ok := ids[u]; ok && old != id {
				w.div("C23 C25", "%s: %s is %d, but is %d elsewhere", what, how, id, old)
				bad = true
			}
			ids[u] = id
		}
	}
	for i, r := range wr.roots {
		how := fmt.Sprintf("assertion %d", i)
		switch e := r.(type) {
		case types.ID:
			if types.ID(res.IDs[i]) != e {
				w.div("C25 C22", "%s: %s has id %d but is reported as %d", what, how, e, res.IDs[i])
				bad = true
			}
		case types.TempID:
			// A struct with nothing to record is no entity.
			if res.IDs[i] == 0 && !w.claimed(s, e) {
				continue
			}
			if res.IDs[i] == 0 {
				w.div("C25", "%s: %s has no id", what, how)
				bad = true
				continue
			}
			bind(e, types.ID(res.IDs[i]), how)
		}
	}
	for t, id := range o.bound {
		if _, ok := ids[t]; !ok {
			ids[t] = id
		}
	}
	rank := map[types.TempID]val{}
	key := map[types.TempID]map[types.ID]val{}
	for _, cl := range s.claims {
		if t, is := cl.E.(types.TempID); is {
			a := cl.A.(types.ID)
			if a == sys.DbRank {
				rank[t] = fromValue(cl.V)
			}
			if key[t] == nil {
				key[t] = map[types.ID]val{}
			}
			key[t][a] = fromValue(cl.V)
		}
	}
	for changed := true; changed && !bad; {
		changed = false
		for _, cl := range s.claims {
			t, is := cl.V.(types.TempID)
			if !is {
				continue
			}
			if _, ok := ids[t]; ok || !w.claimed(s, t) {
				continue
			}
			var e types.ID
			switch x := cl.E.(type) {
			case types.ID:
				e = x
			case types.TempID:
				e = ids[x]
			}
			if e == 0 {
				continue
			}
			a := universeByID[cl.A.(types.ID)]
			vs := byE[e][a.ID]
			if !a.Many {
				if len(vs) != 1 {
					w.div("C20 C23 C22", "%s: entity %d has %v of %q", what, e, vs, a.Ident)
					bad = true
					break
				}
				bind(t, types.ID(vs[0].N), fmt.Sprintf("%q of %d", a.Ident, e))
				changed = true
				continue
			}
			// Entries of collections are told apart by rank or key.
			var k types.ID = sys.DbRank
			if strings.HasPrefix(a.Ident, "u/map/") {
				k = universe["u/"+a.Ident[6:]+"/0"].ID
			}
			want := key[t][k]
			for _, u := range o.classes[classOf[t]] {
				if x, ok := key[u][k]; ok {
					want = x
				}
			}
			var found []types.ID
			for _, v := range vs {
				id := types.ID(v.N)
				if xs := byE[id][k]; len(xs) == 1 && xs[0] == want && !preE[id] {
					found = append(found, id)
				}
			}
			if len(found) != 1 {
				w.div("C20 C23", "%s: of the entries %v of %q of %d, those at %s are %v", what, vs, a.Ident, e, want, found)
				bad = true
				break
			}
			bind(t, found[0], fmt.Sprintf("the entry at %s of %q of %d", want, a.Ident, e))
			changed = true
		}
	}
	for _, t := range o.temps {
		if _, ok := ids[t]; !ok && !bad {
			if !w.claimed(s, t) {
				continue // a struct with nothing to record, to which there may be a ref nonetheless
			}
			w.div("C20 C23", "%s: a struct reached was not recorded", what)
			bad = true
		}
	}
	if bad {
		return
	}
	seen := map[types.ID]int{}
	for t, id := range ids {
		w.give(id)
		if other, ok := seen[id]; ok && other != classOf[t] {
			w.div("C23 C22", "%s: two structs are both entity %d", what, id)
			return
		}
		seen[id] = classOf[t]
	}
	c.count("structs identified", len(seen))
	for t := range o.bound {
		_ = t
		c.count("structs bound to extant entities", 1)
		c.feature("bound")
	}
	want, free, _ := o.build(ids, 1<<60)
	for d := range want {
		if _, decl := universeState[d]; decl || d.E < sys.FirstUserID {
			delete(want, d)
		}
	}
	facts := map[types.ID]bool{}
	for d := range want {
		if !free[ea{d.E, d.A}] {
			facts[d.E] = true
		}
	}
	for d := range want {
		at := ea{d.E, d.A}
		if d.V.K == kRef && !facts[types.ID(d.V.N)] {
			delete(want, d)
			w.hidden[at] = true
			free[at] = free[at] || post.has(types.ID(d.V.N))
		} else if a := universeByID[d.A]; a != nil && !a.Many {
			delete(w.hidden, at)
		}
	}
	missing, extra, _ := diffStates(want, post, false)
	keep := func(l []eav) (out []eav) {
		for _, d := range l {
			if !free[ea{d.E, d.A}] {
				out = append(out, d)
			}
		}
		return
	}
	missing, extra = keep(missing), keep(extra)
	c.count("struct datums compared", len(post))
	if len(missing)+len(extra) > 0 {
		props := "C20 C22 C23 C26 C25"
		w.div(props, "%s (ids %v): the database lacks %s and has %s besides", what, res.IDs, w.render(missing), w.render(extra))
	}
	for d := range post {
		w.give(d.E)
	}
}

func (w *structWorld) claimed(s *shred, t types.TempID) bool {
	for _, cl := range s.claims {
		if cl.E == types.ERef(t) {
			return true
		}
	}
	return false
}

func (w *structWorld) give(id types.ID) {
	if id >= sys.FirstUserID && id < 1<<50 {
		w.given[id] = true
		if id > w.highest {
			w.highest = id
		}
	}
}

func (w *structWorld) render(ds []eav) string {
	var out []string
	for i, d := range ds {
		if i == 12 {
			out = append(out, "...")
			break
		}
		name := fmt.Sprint(d.A)
		if a := universeByID[d.A]; a != nil {
			name = a.Ident
		}
		out = append(out, fmt.Sprintf("[%d %s %s]", d.E, name, d.V))
	}
	return "{" + strings.Join(out, " ") + "}"
}

func renderStructs(req public.Request) string {
	var out []string
	for _, x := range req.Retractions {
		out = append(out, "--"+renderGo(x))
	}
	// One rendering, so that pointers shared between assertions show.
	out = append(out, renderGo(req.Assertions))
	return strings.Join(out, " ")
}

// --- generating

// filler makes up structs.
type filler struct {
	c *cse
	w *structWorld
	// chances
	share    float64 // that a pointer is one already in the request
	reuse    float64 // that a unique value is one already held or used
	update   float64 // that an id is that of an extant entity
	strange  float64 // that an id was never issued
	empty    float64 // that a field which ignores it is empty, or a pointer nil
	colls    float64 // that a collection is not nil
	junk     bool
	pointers map[reflect.Type][]reflect.Value
	open     map[pointerKey]bool              // pointers to structs being filled
	filled   map[reflect.Type][]reflect.Value // slices and maps already filled
	left     int                              // how many structs more the graph may have
	wide     bool                             // that it may have many
	uniques  map[string][]val
	n        int
}

func (f *filler) begin() {
	f.pointers = map[reflect.Type][]reflect.Value{}
	f.open = map[pointerKey]bool{}
	f.filled = map[reflect.Type][]reflect.Value{}
	f.left = 60
	f.wide = f.c.oneIn(30)
	if f.wide {
		f.left = 600
	}
	if f.uniques == nil {
		f.uniques = map[string][]val{}
	}
}

func (f *filler) scalar(k kind) val {
	c := f.c
	w := &world{c: c}
	if c.oneIn(3) {
		return w.freshVal(k)
	}
	return w.poolVal(k)
}

func (f *filler) unique(ident string, k kind) val {
	c := f.c
	if used := f.uniques[ident]; len(used) > 0 && c.chance(f.reuse) {
		return pick(c, used)
	}
	f.n++
	var v val
	for range 50 {
		switch k {
		case kStr:
			v = vstr(fmt.Sprintf("unique%d", f.n))
		case kInt:
			v = vint(int64(f.n) * int64(1-2*c.IntN(2)) << c.IntN(40))
		case kFloat:
			v = vfloat(float64(f.n) * (c.Float64() - 0.5))
		case kInst:
			v = vinst(int64(f.n) * int64(1-2*c.IntN(2)))
		default:
			v = f.scalar(k)
		}
		if c.oneIn(6) {
			v = (&world{c: c}).poolVal(k)
		}
		fresh := true
		for _, u := range f.uniques[ident] {
			if u == v {
				fresh = false
			}
		}
		if fresh {
			break
		}
		f.n++
	}
	f.uniques[ident] = append(f.uniques[ident], v)
	return v
}

func (f *filler) id() uint64 {
	c := f.c
	if c.chance(f.update) {
		es := map[types.ID]bool{}
		for d := range f.w.st {
			es[d.E] = true
		}
		var l []types.ID
		for e := range es {
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if len(l) > 0 {
			return uint64(pick(c, l))
		}
	}
	if c.chance(f.strange) {
		return uint64(f.w.highest) + 5000 + uint64(c.IntN(10))
	}
	return 0
}

// pointer is a pointer to a filled struct.
func (f *filler) pointer(typ reflect.Type, depth int, whole bool) reflect.Value {
	var ps []reflect.Value
	for _, p := range f.pointers[typ] {
		// The key of an entry of a map must be known.
		if !whole || !f.open[pointerKey{p.Pointer(), typ}] {
			ps = append(ps, p)
		}
	}
	if len(ps) > 0 && f.c.chance(f.share) {
		f.c.count("pointers shared", 1)
		return pick(f.c, ps)
	}
	p := reflect.New(typ)
	f.pointers[typ] = append(f.pointers[typ], p)
	f.within(p, depth)
	return p
}

// within fills the struct to which a pointer points.
func (f *filler) within(p reflect.Value, depth int) {
	k := pointerKey{p.Pointer(), p.Type().Elem()}
	f.open[k] = true
	f.into(p.Elem(), depth)
	delete(f.open, k)
}

// place fills a struct within another, or within a slice, to which there may be pointers too.
func (f *filler) place(v reflect.Value, depth int) {
	if v.CanAddr() && f.c.chance(f.share/2) {
		p := v.Addr()
		f.pointers[v.Type()] = append(f.pointers[v.Type()], p)
		f.c.count("pointers into structs and slices", 1)
		f.within(p, depth)
		return
	}
	f.into(v, depth)
}

// length is how many structs a slice or map has.
func (f *filler) length() int {
	c := f.c
	if f.wide && f.left > 12 && c.oneIn(2) {
		f.c.count("large collections", 1)
		n := pick(c, []int{9 + c.IntN(4), 15 + c.IntN(4), 30 + c.IntN(10), 60 + c.IntN(10), 90 + c.IntN(60), 250 + c.IntN(20)})
		return min(n, f.left)
	}
	return c.IntN(4)
}

// again is a slice or map already in the request.
func (f *filler) again(field reflect.Value) bool {
	if xs := f.filled[field.Type()]; len(xs) > 0 && f.c.chance(f.share/3) {
		field.Set(pick(f.c, xs))
		f.c.count("collections shared", 1)
		return true
	}
	return false
}

// withinOneAnother has some struct of a slice have the slice of those before it, where its type allows.
func (f *filler) withinOneAnother(s reflect.Value) {
	c := f.c
	n := s.Len()
	if n < 2 || n > 5 || s.Type().Elem().Kind() != reflect.Struct || isScalar(s.Type().Elem()) || !c.chance(f.share) {
		return
	}
	for _, t := range tagsOf(s.Type().Elem()) {
		if field := s.Index(0).Field(t.index); field.Type() == s.Type() && t.value == "" && c.oneIn(2) {
			j := 1 + c.IntN(n-1)
			s.Index(j).Field(t.index).Set(s.Slice(0, 1+c.IntN(j)))
			f.c.count("slices within one another", 1)
		}
	}
}

// root is a struct of some type, or a pointer to one.
func (f *filler) root(typ reflect.Type, depth int) any {
	if f.c.oneIn(2) {
		return f.pointer(typ, depth, false).Interface()
	}
	v := reflect.New(typ).Elem()
	f.into(v, depth)
	return v.Interface()
}

// into fills a struct.
func (f *filler) into(v reflect.Value, depth int) {
	c := f.c
	typ := v.Type()
	if f.left--; f.left < 0 {
		depth = 0
	}
	tags := map[int]tagged{}
	for _, t := range tagsOf(typ) {
		tags[t.index] = t
	}
	for i := range typ.NumField() {
		field := v.Field(i)
		t, ok := tags[i]
		if !ok {
			if f.junk && field.CanSet() {
				switch field.Kind() {
				case reflect.String:
					field.SetString("junk")
				case reflect.Uint32:
					field.SetUint(7)
				case reflect.Slice:
					field.Set(reflect.MakeSlice(field.Type(), 2, 2))
				case reflect.Chan:
					field.Set(reflect.MakeChan(field.Type(), 1))
				case reflect.Interface:
					field.Set(reflect.ValueOf(3))
				case reflect.Struct:
					if !strings.HasPrefix(field.Type().Name(), "Malformed") {
						f.into(field, 0)
					}
				case reflect.Pointer:
					field.Set(reflect.New(field.Type().Elem()))
				case reflect.Func:
					field.Set(reflect.ValueOf(func() {}))
				}
			}
			continue
		}
		value := func() val {
			a := universe[t.ident]
			if a.Unique != 0 {
				return f.unique(t.ident, a.K)
			}
			return f.scalar(a.K)
		}
		switch {
		case t.ident == "sys/db/id":
			field.SetUint(f.id())
		case isScalar(field.Type()):
			if !(t.ignoreEmpty && c.chance(f.empty)) {
				setScalarTo(field, value())
			}
		case field.Kind() == reflect.Pointer && isScalar(field.Type().Elem()):
			if c.chance(f.empty) {
				continue
			}
			if ps := f.pointers[field.Type().Elem()]; len(ps) > 0 && c.chance(f.share/2) && universe[t.ident].Unique == 0 {
				field.Set(pick(c, ps))
				c.count("pointers to scalars shared", 1)
				continue
			}
			field.Set(reflect.New(field.Type().Elem()))
			f.pointers[field.Type().Elem()] = append(f.pointers[field.Type().Elem()], field.Elem().Addr())
			if !(t.ignoreEmpty && c.chance(f.empty)) {
				setScalarTo(field.Elem(), value())
			}
		case field.Kind() == reflect.Struct:
			f.place(field, depth-1)
		case field.Kind() == reflect.Pointer:
			if depth > 0 && !c.chance(f.empty) {
				field.Set(f.pointer(field.Type().Elem(), depth-1, false))
			}
		case field.Kind() == reflect.Slice:
			if !c.chance(f.colls) || depth <= 0 {
				if c.oneIn(3) {
					field.Set(reflect.MakeSlice(field.Type(), 0, 1))
				}
				continue
			}
			if f.again(field) {
				continue
			}
			n := f.length()
			if t.value != "" {
				n = c.IntN(6)
				if c.oneIn(20) {
					n = 12 // more than one digit of rank
				}
				if c.oneIn(150) {
					n = 120 + c.IntN(250) // more than a byte of rank
				}
			}
			s := reflect.MakeSlice(field.Type(), n, n)
			for j := range n {
				if t.value != "" {
					setScalarTo(s.Index(j), f.scalar(universe[t.value].K))
				} else {
					f.place(s.Index(j), depth-1)
				}
			}
			field.Set(s)
			f.withinOneAnother(s)
			f.filled[field.Type()] = append(f.filled[field.Type()], s)
		case field.Kind() == reflect.Map:
			if !c.chance(f.colls) || depth <= 0 {
				if c.oneIn(3) {
					field.Set(reflect.MakeMap(field.Type()))
				}
				continue
			}
			if f.again(field) {
				continue
			}
			m := reflect.MakeMap(field.Type())
			used := map[val]bool{}
			for range f.length() {
				et := field.Type().Elem()
				var e, p reflect.Value
				if et.Kind() == reflect.Pointer {
					p = f.pointer(et.Elem(), depth-1, true)
					e = p.Elem()
				} else {
					p = reflect.New(et).Elem()
					e = p
					f.into(e, depth-1)
				}
				kv, ok := keyOf(e, t.key)
				if !ok || used[kv] {
					continue
				}
				used[kv] = true
				k := reflect.New(field.Type().Key()).Elem()
				setScalarTo(k, kv)
				m.SetMapIndex(k, p)
			}
			field.Set(m)
			f.filled[field.Type()] = append(f.filled[field.Type()], m)
		default:
			bug("field %s of %s", field.Type(), typ)
		}
	}
}

// keyOf is the value of a struct's field for an ident, if it would be recorded.
func keyOf(e reflect.Value, ident string) (val, bool) {
	for _, t := range tagsOf(e.Type()) {
		if t.ident != ident {
			continue
		}
		f := e.Field(t.index)
		if f.Kind() == reflect.Pointer {
			if f.IsNil() {
				return val{}, false
			}
			f = f.Elem()
		}
		if t.ignoreEmpty && emptyScalar(f) {
			return val{}, false
		}
		return scalarOf(f), true
	}
	return val{}, false
}

// --- loading

// shape renders a struct, to a depth of refs, so that a graph recorded, a graph loaded and
// what must be loaded compare.
type shape struct {
	ids   bool // show id fields
	junk  bool // show untagged fields
	given bool // it was recorded, rather than loaded
}

func (s shape) render(v reflect.Value, depth int) string {
	var b strings.Builder
	s.write(&b, v, depth)
	return b.String()
}

func (s shape) write(b *strings.Builder, v reflect.Value, depth int) {
	if depth < 0 {
		b.WriteString("~")
		return
	}
	typ := v.Type()
	tags := map[int]tagged{}
	for _, t := range tagsOf(typ) {
		tags[t.index] = t
	}
	b.WriteString(typ.Name() + "{")
	for i := range typ.NumField() {
		f := v.Field(i)
		t, ok := tags[i]
		if !ok {
			if s.junk && !f.IsZero() {
				fmt.Fprintf(b, "%s:SET ", typ.Field(i).Name)
			}
			continue
		}
		if t.ident == "sys/db/id" {
			if s.ids {
				fmt.Fprintf(b, "#%d ", f.Uint())
			}
			continue
		}
		fmt.Fprintf(b, "%s:", t.ident)
		switch {
		case t.ignoreEmpty && f.Kind() != reflect.Pointer && emptyScalar(f):
			s.scalar(b, reflect.Zero(f.Type())) // as negative zero is ignored too
		case isScalar(f.Type()):
			s.scalar(b, f)
		case f.Kind() == reflect.Pointer && isScalar(f.Type().Elem()):
			if f.IsNil() || s.given && t.ignoreEmpty && emptyScalar(f.Elem()) {
				b.WriteString("nil")
			} else {
				b.WriteString("&")
				s.scalar(b, f.Elem())
			}
		case f.Kind() == reflect.Struct:
			s.write(b, f, depth-1)
		case f.Kind() == reflect.Pointer:
			if f.IsNil() {
				b.WriteString("nil")
			} else {
				b.WriteString("&")
				s.write(b, f.Elem(), depth-1)
			}
		case f.Kind() == reflect.Slice:
			b.WriteString("[")
			for j := range f.Len() {
				if isScalar(f.Type().Elem()) {
					s.scalar(b, f.Index(j))
				} else {
					s.write(b, f.Index(j), depth-1)
				}
				b.WriteString(",")
			}
			b.WriteString("]")
		case f.Kind() == reflect.Map:
			var entries []string // among which may be several whose keys are no number
			for it := f.MapRange(); it.Next(); {
				var kb strings.Builder
				if it.Key().Kind() == reflect.Uint64 {
					fmt.Fprintf(&kb, "#%d", it.Key().Uint())
				} else {
					s.scalar(&kb, it.Key())
				}
				e := it.Value()
				text := "nil"
				if e.Kind() == reflect.Pointer {
					if !e.IsNil() {
						text = "&" + s.render(e.Elem(), depth-1)
					}
				} else {
					text = s.render(e, depth-1)
				}
				entries = append(entries, kb.String()+"="+text)
			}
			sort.Strings(entries)
			b.WriteString("map[")
			for _, e := range entries {
				b.WriteString(e + ",")
			}
			b.WriteString("]")
		}
		b.WriteString(" ")
	}
	b.WriteString("}")
}

func (s shape) scalar(b *strings.Builder, v reflect.Value) {
	x := scalarOf(v)
	b.WriteString(x.String())
	if x.K == kStr && len(x.S) > 40 {
		fmt.Fprint(b, hashState(state{eav{V: x}: 0}))
	}
	if x.K == kInst && v.Interface().(time.Time).Location() != time.UTC && s.junk {
		b.WriteString("NOT UTC")
	}
	if x.K == kInst && s.junk && v.Interface().(time.Time).Nanosecond()%1000000 != 0 {
		b.WriteString("NOT MS")
	}
}

// expected renders what a struct of a type loaded for an entity must be.
type expected struct {
	byE map[types.ID]map[string][]val
	// unclear is why what must be loaded is not specified
	unclear string
	reached map[types.ID]bool
	hidden  map[ea]bool
}

func (w *structWorld) expected() *expected {
	x := &expected{byE: map[types.ID]map[string][]val{}, reached: map[types.ID]bool{}, hidden: map[ea]bool{}}
	for k := range w.hidden {
		x.hidden[k] = true
	}
	for d := range w.st {
		if x.byE[d.E] == nil {
			x.byE[d.E] = map[string][]val{}
		}
		ident := universeByID[d.A].Ident
		x.byE[d.E][ident] = append(x.byE[d.E][ident], d.V)
	}
	return x
}

type inValue struct {
	id  types.ID
	typ reflect.Type
}

// write renders the struct loaded as typ for id, which is zero where there is none.
func (x *expected) write(b *strings.Builder, id types.ID, typ reflect.Type, depth int, within []inValue) {
	if depth < 0 {
		b.WriteString("~")
		return
	}
	for _, o := range within {
		if o.id == id && o.typ == typ && id != 0 {
			x.unclear = "a cycle without pointers"
			return
		}
	}
	facts := x.byE[id]
	if id != 0 {
		x.reached[id] = true
		within = append(append([]inValue{}, within...), inValue{id, typ})
		if len(facts) == 0 {
			x.unclear = "a reference to an entity without facts"
		}
	}
	b.WriteString(typ.Name() + "{")
	for _, t := range tagsOf(typ) {
		ft := typ.Field(t.index).Type
		if t.ident == "sys/db/id" {
			fmt.Fprintf(b, "#%d ", id)
			continue
		}
		fmt.Fprintf(b, "%s:", t.ident)
		vs := facts[t.ident]
		if x.hidden[ea{id, universe[t.ident].ID}] {
			x.unclear = "a reference to an entity without facts"
		}
		one := func() types.ID {
			if len(vs) > 0 {
				return types.ID(vs[0].N)
			}
			return 0
		}
		switch {
		case isScalar(ft):
			if len(vs) > 0 {
				x.scalar(b, vs[0])
			} else {
				z := scalarOf(reflect.Zero(ft))
				x.scalar(b, z)
			}
		case ft.Kind() == reflect.Pointer && isScalar(ft.Elem()):
			if len(vs) == 0 {
				b.WriteString("nil")
			} else {
				b.WriteString("&")
				x.scalar(b, vs[0])
			}
		case ft.Kind() == reflect.Struct:
			x.write(b, one(), ft, depth-1, within)
		case ft.Kind() == reflect.Pointer:
			if len(vs) == 0 {
				b.WriteString("nil")
			} else {
				b.WriteString("&")
				x.write(b, one(), ft.Elem(), depth-1, nil)
			}
		case ft.Kind() == reflect.Slice:
			type entry struct {
				rank int64
				id   types.ID
			}
			var es []entry
			seen := map[int64]bool{}
			for _, v := range vs {
				r := x.byE[types.ID(v.N)]["sys/db/rank"]
				if len(r) != 1 {
					x.unclear = "an entry without a rank"
					continue
				}
				n := int64(r[0].N)
				if seen[n] {
					x.unclear = "entries of the same rank"
				}
				seen[n] = true
				es = append(es, entry{n, types.ID(v.N)})
			}
			sort.Slice(es, func(i, j int) bool { return es[i].rank < es[j].rank })
			b.WriteString("[")
			for _, e := range es {
				if t.value == "" {
					x.write(b, e.id, ft.Elem(), depth-1, within)
				} else if s := x.byE[e.id][t.value]; len(s) == 1 {
					x.scalar(b, s[0])
				} else {
					x.unclear = "an entry without a value"
				}
				b.WriteString(",")
			}
			b.WriteString("]")
		case ft.Kind() == reflect.Map:
			seen := map[string]bool{}
			var entries []string
			for _, v := range vs {
				e := types.ID(v.N)
				var k string
				if t.key == "" {
					k = fmt.Sprintf("#%d", e)
				} else if s := x.byE[e][t.key]; len(s) == 1 {
					var kb strings.Builder
					x.scalar(&kb, s[0])
					k = kb.String()
				} else {
					x.unclear = "an entry without a key"
				}
				if seen[k] && k != vfloat(math.NaN()).String() {
					x.unclear = "entries of the same key"
				}
				seen[k] = true
				var eb strings.Builder
				et := ft.Elem()
				if et.Kind() == reflect.Pointer {
					eb.WriteString("&")
					x.write(&eb, e, et.Elem(), depth-1, nil)
				} else {
					x.write(&eb, e, et, depth-1, within)
				}
				entries = append(entries, k+"="+eb.String())
			}
			sort.Strings(entries)
			b.WriteString("map[")
			for _, e := range entries {
				b.WriteString(e + ",")
			}
			b.WriteString("]")
		}
		b.WriteString(" ")
	}
	b.WriteString("}")
}

func (x *expected) scalar(b *strings.Builder, v val) {
	b.WriteString(v.String())
	if v.K == kStr && len(v.S) > 40 {
		fmt.Fprint(b, hashState(state{eav{V: v}: 0}))
	}
}

// load finds an entity as a family, and compares it with the facts.
func (w *structWorld) load(snap *public.Snapshot, x *expected, f *family, id types.ID, depth int, props string) any {
	c := w.c
	var got any
	var err error
	if !c.guarded(fmt.Sprintf("finding %d as %s", id, f.typ), func() { got, err = f.find(c, snap, uint64(id)) }) {
		return nil
	}
	if err != nil {
		w.div(props, "a snapshot typed as %s: %v", f.typ, err)
		return nil
	}
	if len(x.byE[id]) == 0 {
		// Attributes are entities too, and other facts are not the probes' business.
		if _, attr := w.attrE()[id]; attr {
			return got
		}
		if got != nil {
			w.div("C21", "entity %d has no facts but loads as %s", id, renderGo(got))
		}
		c.count("entities without facts", 1)
		return got
	}
	if got == nil {
		w.div(props, "entity %d loads as nothing as %s, but has %v", id, f.typ, x.byE[id])
		return nil
	}
	x.unclear = ""
	x.reached = map[types.ID]bool{}
	var b strings.Builder
	x.write(&b, id, f.typ, depth, nil)
	have := shape{ids: true, junk: true}.render(reflect.ValueOf(got).Elem(), depth)
	if x.unclear != "" {
		// It must be the same each time even so.
		c.count("unspecified loads repeated", 1)
		for range 2 {
			var again any
			if !c.guarded("Find", func() { again, err = f.find(c, snap, uint64(id)) }) {
				return nil
			}
			text := "nothing"
			if again != nil {
				text = shape{ids: true, junk: true}.render(reflect.ValueOf(again).Elem(), depth)
			}
			if text != have {
				w.div(props, "entity %d loads as\n   %s\nand again as\n   %s", id, around(have, text), around(text, have))
				break
			}
		}
		return got
	}
	if want := b.String(); have != want {
		w.div(props, "entity %d loads as\n   %s\nbut must as\n   %s", id, around(have, want), around(want, have))
	}
	c.count("structs loaded", 1)
	if len(x.reached) > 1 {
		c.count("graphs loaded", 1)
	}
	return got
}

// around is the part of a in which it differs from b.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if len(a) < 600 {
		return a
	}
	lo, hi := max(0, i-250), min(len(a), i+250)
	return fmt.Sprintf("...%s...", a[lo:hi])
}

func (w *structWorld) attrE() map[types.ID]bool {
	out := map[types.ID]bool{}
	for d := range w.attrs {
		out[d.E] = true
	}
	return out
}

func (w *structWorld) ids() (out []types.ID) {
	es := map[types.ID]bool{}
	for d := range w.st {
		es[d.E] = true
	}
	for e := range es {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func (s state) has(e types.ID) bool {
	for d := range s {
		if d.E == e {
			return true
		}
	}
	return false
}
