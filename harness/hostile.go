package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// What Go lets a user pass, however little it makes sense.

type (
	foreignRef   string // a reference and value of the user's own
	foreignSlice []int  // the same, but which cannot be compared
	foreignNum   uint8
)

func (foreignRef) IsERef()          {}
func (foreignRef) IsVRef()          {}
func (foreignRef) IsIDRef()         {}
func (f foreignRef) String() string { return string(f) }
func (f foreignRef) IsZero() bool   { return f == "" }

func (foreignSlice) IsERef()          {}
func (foreignSlice) IsVRef()          {}
func (foreignSlice) IsIDRef()         {}
func (f foreignSlice) String() string { return "slice" }
func (f foreignSlice) IsZero() bool   { return len(f) == 0 }

func (foreignNum) IsVRef()          {}
func (f foreignNum) String() string { return "num" }
func (f foreignNum) IsZero() bool   { return f == 0 }

func deepLookup(n int) types.LookupRef {
	ref := types.LookupRef{A: types.Ident("sys/db/ident"), V: types.String("nothing")}
	for range n {
		ref = types.LookupRef{A: ref, V: types.String("x")}
	}
	return ref
}

func (w *world) hostileLookup() types.LookupRef {
	c := w.c
	ref := types.LookupRef{A: types.Ident("sys/db/ident"), V: types.String("nothing")}
	if ds := w.uniqueDatums(); len(ds) > 0 && c.oneIn(2) {
		d := pick(c, ds)
		ref = types.LookupRef{A: d.A, V: w.raw(d.V).(types.Value)}
	}
	switch c.IntN(11) {
	case 9:
		ref.A = w.hostilePointer()
	case 10:
		ref.V = pick(c, []types.Value{(*types.String)(nil), (*types.Int)(nil), (*types.Inst)(nil), (*types.ID)(nil), (*types.Bool)(nil)})
	case 0:
		ref.A = nil
	case 1:
		ref.V = nil
	case 2:
		ref = types.LookupRef{}
	case 3:
		ref.V = foreignRef("x")
	case 4:
		ref.V = foreignSlice{1}
	case 5:
		ref.A = foreignRef("sys/db/ident")
	case 6:
		ref.A = types.ID(c.Uint64())
	case 7:
		return deepLookup(1 + c.IntN(2000))
	default:
		ref.V = pick(c, []types.Value{types.Float(math.NaN()), types.Inst(time.Time{}), types.Inst(time.Unix(1<<55, 0)), types.String(strings.Repeat("x", 1<<16)), types.ID(0), foreignNum(1)})
	}
	return ref
}

// hostilePointer is a pointer where a reference may be: to nothing, to a
// reference, or to a lookup by way of itself.
func (w *world) hostilePointer() types.IDRef {
	c := w.c
	switch c.IntN(8) {
	case 0:
		return (*types.LookupRef)(nil)
	case 1:
		return (*types.Ident)(nil)
	case 2:
		return (*types.ID)(nil)
	case 3:
		i := types.Ident("sys/db/ident")
		return &i
	case 4:
		id := sys.DbIdent
		return &id
	case 5:
		ref := types.LookupRef{A: types.Ident("sys/db/ident"), V: types.String("sys/db/ident")}
		return &ref
	case 6:
		ref := types.LookupRef{A: (*types.LookupRef)(nil), V: types.String("x")}
		return &ref
	}
	ref := &types.LookupRef{V: types.String("x")}
	ref.A = ref
	return ref
}

func (w *world) hostileE() types.ERef {
	c := w.c
	switch c.IntN(13) {
	case 11:
		return w.hostilePointer().(types.ERef)
	case 12:
		return (*types.TempID)(nil)
	case 0:
		return nil
	case 1:
		return foreignRef("x")
	case 2:
		return foreignSlice{}
	case 3:
		return (*types.ID)(nil)
	case 4:
		id := types.ID(c.Uint64())
		return &id
	case 5:
		return (*types.LookupRef)(nil)
	case 6:
		return types.Ident(strings.Repeat("\xff", 1+c.IntN(1<<12)))
	case 7:
		return types.ID(1<<63 + c.Uint64N(1<<63))
	case 8:
		return (*types.TxnID)(nil)
	case 9:
		return types.TempID(strings.Repeat("t", c.IntN(1<<10)))
	}
	return w.hostileLookup()
}

func (w *world) hostileA() types.IDRef {
	c := w.c
	switch c.IntN(10) {
	case 9:
		return w.hostilePointer()
	case 0:
		return nil
	case 1:
		return foreignRef("sys/db/ident")
	case 2:
		return foreignSlice{1}
	case 3:
		return (*types.Ident)(nil)
	case 4:
		i := types.Ident("sys/db/ident")
		return &i
	case 5:
		return types.ID(1<<63 + c.Uint64N(1<<63))
	case 6:
		return types.Ident("nothing/" + strings.Repeat("/", c.IntN(100)))
	case 7:
		if es := w.entities(); len(es) > 0 {
			return pick(c, es)
		}
	}
	return w.hostileLookup()
}

func (w *world) hostileV() types.VRef {
	c := w.c
	switch c.IntN(14) {
	case 12:
		return w.hostilePointer().(types.VRef)
	case 13:
		return pick(c, []types.VRef{(*types.TempID)(nil), (*types.ID)(nil), (*types.Bool)(nil), (*types.Float)(nil)})
	case 0:
		return nil
	case 1:
		return foreignRef("x")
	case 2:
		return foreignSlice{1, 2}
	case 3:
		return foreignNum(3)
	case 4:
		return (*types.String)(nil)
	case 5:
		return (*types.Inst)(nil)
	case 6:
		n := types.Int(1)
		return &n
	case 7:
		return types.Inst(time.Time{}.Add(-1 << 60))
	case 8:
		return types.Ident(strings.Repeat("v", 1+c.IntN(1<<12)))
	case 9:
		return types.String(strings.Repeat("\x00", c.IntN(1<<14)))
	case 10:
		return types.TempID("")
	}
	return w.hostileLookup()
}

// hostileRequest spoils a request.
func (w *world) hostileRequest() types.Request {
	c := w.c
	req := w.request()
	if len(req.Claims) == 0 || c.oneIn(8) {
		req.Claims = append(req.Claims, types.Claim{Retract: c.oneIn(3)})
	}
	for range 1 + c.IntN(2) {
		cl := &req.Claims[c.IntN(len(req.Claims))]
		switch c.IntN(6) {
		case 0:
			cl.E = w.hostileE()
		case 1:
			cl.A = w.hostileA()
		case 2:
			cl.V = w.hostileV()
		case 3:
			cl.E, cl.A, cl.V = w.hostileE(), w.hostileA(), w.hostileV()
		case 4:
			cl.Retract = !cl.Retract
			cl.V = w.hostileV()
		case 5:
			r := types.Retraction{}
			if !c.oneIn(4) {
				r.Constraints = map[types.IDRef]types.Void{}
				for range c.IntN(3) {
					ref := w.hostileA()
					if mapKey(ref) && hashable(ref) {
						r.Constraints[ref] = types.Void{}
					}
				}
			}
			req.Retractions = append(req.Retractions, r)
		}
	}
	return req
}

// mapKey reports if a reference can be the key of a map at all.
func mapKey(x any) (ok bool) {
	defer func() { ok = recover() == nil }()
	_ = map[any]bool{x: true}
	return
}

func (w *world) hostileQuery() (cl types.Claim) {
	c := w.c
	cl = w.randomQuery()
	zero := func(x any) bool {
		switch r := x.(type) {
		case types.ID:
			return r == 0
		case types.Ident:
			return r == ""
		}
		return false
	}
	for range 1 + c.IntN(2) {
		switch c.IntN(3) {
		case 0:
			cl.E = w.hostileE()
		case 1:
			cl.A = w.hostileA()
		case 2:
			cl.V = w.hostileV()
		}
	}
	if zero(cl.E) || zero(cl.A) {
		cl.E, cl.A = foreignRef("y"), foreignRef("z")
	}
	cl.Retract = c.oneIn(3)
	return
}

func init() {
	register(&check{
		id: "C27", quick: 1200, thorough: 9000,
		rule: "a history in which malformed requests, queries, structs and struct types alternate with valid ones, all of which must go on as ever; nontrivial if anything malformed was refused and anything valid accepted",
		floors: map[string]int{
			"hostile requests": 2500, "hostile queries": 3000, "accepted as modelled": 800, "malformed requests": 500, "hostile loads": 2000, "struct writes accepted": 350, "malformed types refused": 100,
		},
		run: func(c *cse) {
			if c.n%2 == 0 {
				hostileDatums(c)
			} else {
				hostileStructs(c)
			}
		},
	})
}

func hostileDatums(c *cse) {
	w := datumWorld(c, nil, 0.2)
	if w == nil {
		return
	}
	w.all = true
	c.trivial = true
	for range 15 + c.IntN(30) {
		if c.failed() {
			return
		}
		if c.oneIn(2) {
			w.history(1, nil)
			continue
		}
		req := w.hostileRequest()
		c.count("hostile requests", 1)
		wr := w.write(req)
		if c.failed() || wr.res.Snapshot == nil {
			return
		}
		if wr.res.Error != nil {
			c.trivial = false
			if msg := ""; true {
				if !c.guarded("Error", func() { msg = wr.res.Error.Error() }) {
					return
				}
				if msg == "" {
					c.violated("the error of %s says nothing", renderReq(req))
				}
			}
		}
		c.sample = trim(renderReq(req), 300)
		for range 4 {
			cl := w.hostileQuery()
			c.count("hostile queries", 1)
			w.query(wr.res.Snapshot, w.st, w.sc, cl, "C27")
		}
		snap := wr.res.Snapshot
		c.guarded("resolving", func() {
			for range 3 {
				ident := types.Ident(pick(c, []string{"nothing", "\xff", strings.Repeat("n", 1<<12), "sys/", "/", " "}))
				if w.sc.idents[string(ident)] == 0 {
					if id := snap.ResolveIdent(ident); id != 0 {
						c.violated("%q names %d", ident, id)
					}
				}
				id := types.ID(c.Uint64())
				if w.sc.attrs[id] == nil {
					if got := snap.ResolveAttrIdent(id); got != "" && !(got == types.Ident(w.identOf(id))) {
						c.violated("%d is the attribute %q", id, got)
					}
				}
			}
		})
	}
}

func (w *world) identOf(e types.ID) string {
	for _, d := range w.sc.byE[e] {
		if d.A == sys.DbIdent {
			return d.V.S
		}
	}
	return ""
}

// Types which see the facts in ways they were not recorded.
type (
	hostA struct {
		ID  uint64             `attr:"sys/db/id"`
		Str int                `attr:"u/str/0"`
		Int string             `attr:"u/int/0"`
		Ref string             `attr:"u/ref/0"`
		Sli *knot              `attr:"u/slice/0"`
		Map map[string]float64 `attr:"none/none"`
	}
	hostB struct {
		Str time.Time `attr:"u/str/0"`
	}
	hostC struct {
		Ref []knot          `attr:"u/ref/0"`
		Map []wrap          `attr:"u/map/str"`
		Sli map[string]knot `attr:"u/slice/0,key=u/str/0"`
	}
	hostD struct {
		Map map[int]knot    `attr:"u/map/str,key=u/str/0"`
		Two map[string]wrap `attr:"u/map/int,key=u/int/0"`
	}
	hostE struct {
		Lis []string  `attr:"u/list/int,value=u/item/int"`
		Oth []int     `attr:"u/list/str,value=u/item/bool"`
		Fin []float64 `attr:"u/slice/1,value=u/float/0"`
	}
	hostF struct {
		Kids  []hostF          `attr:"u/slice/0"`
		More  []hostF          `attr:"u/slice/1"`
		ByStr map[string]hostF `attr:"u/map/str,key=u/str/0"`
		Next  *hostF           `attr:"u/ref/0"`
		Name  string           `attr:"u/str/0"`
	}
	hostG struct {
		Kids map[uint64]hostG `attr:"u/slice/0"`
		All  map[uint64]hostG `attr:"u/ref/0"`
		Prev map[uint64]hostG `attr:"u/ref/1"`
	}
	hostH struct {
		name  string `attr:"u/str/0"`
		n     *int   `attr:"u/int/0"`
		kids  []knot `attr:"u/slice/0"`
		next  *hostH `attr:"u/ref/0"`
		inner wrap   `attr:"u/ref/2"`
		ID    uint64 `attr:"sys/db/id"`
	}
	hostI struct {
		Str *int   `attr:"u/str/0"`
		Ref *int   `attr:"u/ref/0"`
		Num *knot  `attr:"u/int/0"`
		Emb wrap   `attr:"u/str/0"`
		Fin *hostI `attr:"u/slice/2"`
	}
	hostJ struct {
		Str string `attr:"u/str/0"`
		Two string `attr:"u/str/0"`
		ID  uint64 `attr:"sys/db/id"`
		ID2 uint64 `attr:"sys/db/id"`
	}
	hostK struct {
		knot
		Ident string   `attr:"sys/db/ident"`
		Type  *knot    `attr:"sys/attr/type"`
		Card  []knot   `attr:"sys/attr/cardinality"`
		Tx    *string  `attr:"sys/tx/at"`
		Rank  *float64 `attr:"sys/db/rank"`
	}
	hostL struct {
		Map map[knotKey]knot `attr:"u/map/str,key=u/str/0"`
	}
	knotKey struct{ S string }
	hostM   struct {
		Map map[any]knot `attr:"u/map/str,key=u/str/0"`
	}
	hostN struct {
		Map map[string]knot `attr:"u/map/str,key=u/none/0"`
		One map[string]knot `attr:"u/ref/0,key=u/slice/0"`
	}
	hostO struct {
		ID int `attr:"sys/db/id"`
	}
	hostP struct {
		ID *uint64 `attr:"sys/db/id"`
		S  string  `attr:"u/str/0"`
	}
	hostQ struct {
		S myString `attr:"u/int/0"`
		T myInt    `attr:"u/str/0"`
		U *myBool  `attr:"u/float/0"`
		V []myInt  `attr:"u/list/str,value=u/item/str"`
	}
	hostU struct {
		Name  string `attr:"u/str/0"`
		inner wrap   `attr:"u/ref/2"`
	}
	hostV struct {
		Name string `attr:"u/str/0"`
		next *hostV `attr:"u/ref/0"`
	}
	hostW struct {
		Name string `attr:"u/str/0"`
		kids []knot `attr:"u/slice/0"`
	}
	hostX struct {
		Name  string          `attr:"u/str/0"`
		peers map[string]knot `attr:"u/map/str,key=u/str/0"`
	}
	hostY struct {
		Name  string           `attr:"u/str/0"`
		ByStr map[string]*knot `attr:"u/map/str,key=u/str/0"`
	}
	hostZ0 struct { // what it contains is malformed
		Name string   `attr:"u/str/0"`
		Next *badTag  `attr:"u/ref/0"`
		Prev *badChan `attr:"u/ref/1"`
	}
	hostZ1 struct {
		ID   uint64     `attr:"sys/db/id"`
		Kids []badWidth `attr:"u/slice/0"`
		More []badSelf  `attr:"u/slice/1"`
	}
	hostZ2 struct {
		ID    uint64            `attr:"sys/db/id"`
		Peers map[string]badTag `attr:"u/map/str,key=u/str/0"`
		Wraps map[int]*badChan  `attr:"u/map/int,key=u/int/0"`
	}
	hostZ3 struct {
		ID    uint64  `attr:"sys/db/id"`
		Next  badFunc `attr:"u/ref/2"`
		Other badDeep `attr:"u/ref/3"`
	}
	hostR [3]int
	hostS map[string]knot
	hostT struct {
		A map[string]*string `attr:"u/map/str,key=u/str/0"`
		B map[string][]int   `attr:"u/map/int,key=u/int/0"`
		C [][]int            `attr:"u/slice/0"`
		D map[string]any     `attr:"u/map/bool,key=u/bool/0"`
		E []any              `attr:"u/slice/1"`
		F []**knot           `attr:"u/slice/2"`
	}
)

// hostileFinds are loads of entities as what they are not.
var hostileFinds []*family

func registerHostile[T any]() {
	hostileFinds = append(hostileFinds, familyFor[T](true))
}

func init() {
	registerHostile[hostA]()
	registerHostile[hostB]()
	registerHostile[hostC]()
	registerHostile[hostD]()
	registerHostile[hostE]()
	registerHostile[hostF]()
	registerHostile[hostG]()
	registerHostile[hostH]()
	registerHostile[hostI]()
	registerHostile[hostJ]()
	registerHostile[hostK]()
	registerHostile[hostL]()
	registerHostile[hostM]()
	registerHostile[hostN]()
	registerHostile[hostO]()
	registerHostile[hostP]()
	registerHostile[hostQ]()
	registerHostile[hostR]()
	registerHostile[hostS]()
	registerHostile[hostT]()
	registerHostile[hostZ0]()
	registerHostile[hostZ1]()
	registerHostile[hostZ2]()
	registerHostile[hostZ3]()
	registerHostile[int]()
	registerHostile[string]()
	registerHostile[any]()
	registerHostile[error]()
	registerHostile[*knot]()
	registerHostile[[]knot]()
	registerHostile[func()]()
	registerHostile[time.Time]()
	registerHostile[struct{}]()
	registerHostile[badChan]()
	registerHostile[badDeep]()
	registerHostile[badTag]()
	registerHostile[badOther]()
}

// hostileValue is a struct no database can record, for what it contains.
func (w *structWorld) hostileValue() (any, string) {
	c := w.c
	switch c.IntN(13) {
	case 12:
		m := map[string]*knot{"nil": nil}
		for i := range c.IntN(3) {
			m[fmt.Sprint(i)] = &knot{Name: fmt.Sprint(i)}
		}
		return hostY{Name: "y", ByStr: m}, "a map with a nil pointer"
	case 8:
		return hostU{inner: wrap{N: 1}}, "an unexported struct"
	case 9:
		return &hostV{next: &hostV{}}, "an unexported pointer"
	case 10:
		return hostW{kids: make([]knot, 1)}, "an unexported slice"
	case 11:
		return hostX{peers: map[string]knot{"x": {Name: "x"}}}, "an unexported map"
	case 0: // a slice which contains itself
		kids := make([]hostF, 1+c.IntN(2))
		kids[0].Kids = kids
		return hostF{Kids: kids, Name: "cycle"}, "a slice within itself"
	case 1:
		m := map[string]hostF{}
		m["x"] = hostF{ByStr: m, Name: "x"}
		return &hostF{ByStr: m}, "a map within itself"
	case 2: // through one another
		a, b := make([]hostF, 1), make([]hostF, 2)
		a[0].More = b
		b[1].Kids = a
		return hostF{Kids: a}, "slices within each other"
	case 3:
		m := map[string]hostF{}
		s := []hostF{{ByStr: m, Name: "s"}}
		m["y"] = hostF{Kids: s, Name: "y"}
		return &hostF{More: s}, "a slice and a map within each other"
	case 4:
		return hostO{}, "an id which is an int"
	case 5:
		s := "x"
		return hostT{A: map[string]*string{"x": &s}}, "a map of pointers to strings"
	case 6:
		return hostR{}, "an array"
	}
	return hostS{"x": {}}, "a map"
}

func hostileStructs(c *cse) {
	w := newStructWorld(c)
	if w == nil {
		return
	}
	f := w.fill
	f.reuse, f.update, f.strange, f.share = 0.1, 0.2, 0.02, 0.2
	f.empty, f.colls, f.junk = 0.3, 0.4, true
	maker := &typeMaker{c: c, prefix: "made", known: decls{}}
	for ident, a := range universe {
		if !strings.HasPrefix(ident, "sys/") {
			maker.known[ident] = decl{a.K, a.Many, a.Unique}
		}
	}
	var own []*family
	for range 2 + c.IntN(4) {
		own = append(own, pick(c, families))
	}
	own = append(own, familyOf[reflect.TypeFor[knot]()])
	c.trivial = true
	for range 6 + c.IntN(8) {
		if c.failed() {
			return
		}
		f.begin()
		var req public.Request
		for range 1 + c.IntN(2) {
			fam := pick(c, own)
			req.Assertions = append(req.Assertions, f.root(fam.typ, 2))
			c.feature(fam.typ.Name())
		}
		switch c.IntN(6) {
		case 0, 1:
			w.write(req)
		case 2:
			bad, why := w.malformed()
			w.writeMalformed(req, bad, why)
			c.trivial = false
		case 3:
			bad, why := w.hostileValue()
			w.writeMalformed(req, bad, why)
			c.feature(why)
			c.trivial = false
		case 4:
			field, why := maker.bad()
			x := reflect.New(maker.make(c.IntN(2), &field))
			w.writeMalformed(req, x.Interface(), why)
			c.count("malformed types refused", 1)
			c.feature(why)
		case 5:
			x, why := w.malformed()
			req.Assertions = nil
			req.Retractions = []any{x}
			if c.oneIn(2) {
				req.Retractions = append(req.Retractions, x)
			}
			w.retractMalformed(req, why)
		}
		if c.failed() {
			return
		}
		snap := w.db.Read()
		ids := append(w.ids(), 0, w.highest+1, 1<<63, 1<<64-1, 1, 7, 19)
		for d := range w.attrs {
			ids = append(ids, d.E)
			break
		}
		for range 8 {
			h := pick(c, hostileFinds)
			id := pick(c, ids)
			// It fails each time or never.
			var found [3]string
			for i := range found {
				if !c.guarded(fmt.Sprintf("finding %d as %s", id, h.typ), func() {
					x, err := h.find(c, snap, uint64(id))
					found[i] = fmt.Sprintf("found: %v, type accepted: %v", x != nil, err == nil)
				}) {
					return
				}
			}
			if found[1] != found[0] || found[2] != found[0] {
				c.violated("entity %d as %s, asked repeatedly: %q", id, h.typ, found)
				return
			}
			c.count("hostile loads", 1)
		}
		// All else works as ever.
		if w.steps > 0 {
			w.loads(snap, w.expected(), w.ids(), 1, "C27")
		}
		if len(c.trace) > 0 {
			c.sample = trim(c.trace[len(c.trace)-1], 300)
		}
	}
}

// retractMalformed makes a request to retract what cannot be.
func (w *structWorld) retractMalformed(req public.Request, why string) {
	c := w.c
	wr := &structWrite{req: req, malform: why, pre: w.st, o: &outcome{reject: map[reason]string{"malformed": why}}}
	c.count("malformed requests", 1)
	what := trim(renderStructs(req), 300)
	c.log("write %s", what)
	if !c.guarded("Write", func() { wr.res = w.db.Write(req) }) {
		return
	}
	w.observe(wr, what)
}
