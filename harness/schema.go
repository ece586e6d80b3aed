package main

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/structs/models"
	"github.com/dball/destructive/internal/structs/schemas"
	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// decl is what an attribute is declared to be.
type decl struct {
	k    kind
	many bool
	uniq types.ID
}

func (d decl) String() string {
	return fmt.Sprintf("%s many=%v unique=%d", d.k, d.many, d.uniq)
}

type decls map[string]decl

func (ds decls) String() string {
	var out []string
	for ident, d := range ds {
		out = append(out, fmt.Sprintf("%q: %s", ident, d))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// kindOf is the type of attribute of a Go type.
func kindOf(t reflect.Type) kind {
	if t == timeType {
		return kInst
	}
	switch t.Kind() {
	case reflect.String:
		return kStr
	case reflect.Int:
		return kInt
	case reflect.Bool:
		return kBool
	case reflect.Float64:
		return kFloat
	}
	return kRef
}

// declsOf reads the tags of a type and those it reaches.
func declsOf(typ reflect.Type, out decls, done map[reflect.Type]bool) {
	if done[typ] {
		return
	}
	done[typ] = true
	for _, t := range tagsOf(typ) {
		if t.ident == "sys/db/id" {
			continue
		}
		ft := typ.Field(t.index).Type
		d := decl{many: ft.Kind() == reflect.Slice || ft.Kind() == reflect.Map}
		switch {
		case t.identity:
			d.uniq = sys.AttrUniqueIdentity
		case t.unique:
			d.uniq = sys.AttrUniqueValue
		}
		if d.many {
			d.k = kRef
			ft = ft.Elem()
		}
		if t.value != "" {
			out[t.value] = decl{k: kindOf(ft)}
			out[t.ident] = d
			continue
		}
		if ft.Kind() == reflect.Pointer {
			ft = ft.Elem()
		}
		if !d.many {
			d.k = kindOf(ft)
		}
		out[t.ident] = d
		if ft.Kind() == reflect.Struct && ft != timeType {
			declsOf(ft, out, done)
		}
	}
}

// stamp is no time, though it is one in all but name.
type stamp time.Time

// typeMaker makes up struct types.
type typeMaker struct {
	c      *cse
	prefix string
	known  decls // what idents have been used for
	n      int
}

var strangeIdents = []string{"é", "日本", "with space", "UPPER", "a/b/c/d/e/f", ":colon", "dot.dot", "-", "1", "x=y", "key", "identity", strings.Repeat("long", 60), "sysx/a", "sy"}

func (m *typeMaker) ident(d decl) string {
	c := m.c
	if c.oneIn(4) {
		var same []string
		for ident, o := range m.known {
			if o == d {
				same = append(same, ident)
			}
		}
		sort.Strings(same)
		if len(same) > 0 {
			return pick(c, same)
		}
	}
	for {
		m.n++
		ident := fmt.Sprintf("%s/%d", m.prefix, m.n)
		if c.oneIn(6) {
			ident = pick(c, strangeIdents)
		}
		if _, ok := m.known[ident]; !ok {
			m.known[ident] = d
			return ident
		}
	}
}

var scalarTypes = []reflect.Type{
	reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), timeType,
	reflect.TypeFor[myString](), reflect.TypeFor[myInt](), reflect.TypeFor[myBool](), reflect.TypeFor[myFloat](),
}

func quoteTag(s string) reflect.StructTag {
	return reflect.StructTag(fmt.Sprintf("attr:%q", s))
}

// make makes a type, of which the bad field, if any, is one.
func (m *typeMaker) make(depth int, bad *reflect.StructField) reflect.Type {
	c := m.c
	var fields []reflect.StructField
	used := map[string]bool{}
	add := func(t reflect.Type, ident, opts string) {
		if used[ident] {
			return
		}
		used[ident] = true
		fields = append(fields, reflect.StructField{Type: t, Tag: quoteTag(ident + opts)})
	}
	if c.oneIn(2) {
		add(reflect.TypeFor[uint64](), "sys/db/id", "")
	}
	for range 1 + c.IntN(4) {
		t := pick(c, scalarTypes)
		d := decl{k: kindOf(t)}
		var opts []string
		switch c.IntN(6) {
		case 0:
			d.uniq = sys.AttrUniqueIdentity
			opts = append(opts, "identity")
		case 1:
			d.uniq = sys.AttrUniqueValue
			opts = append(opts, "unique")
		}
		if c.oneIn(4) {
			opts = append(opts, "ignoreempty")
		}
		c.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		if c.oneIn(3) {
			t = reflect.PointerTo(t)
		}
		ident := m.ident(d)
		for _, o := range opts {
			ident += "," + o
		}
		add(t, strings.SplitN(ident, ",", 2)[0], strings.TrimPrefix(ident, strings.SplitN(ident, ",", 2)[0]))
	}
	badAt := bad != nil && (depth == 0 || c.oneIn(2))
	if depth > 0 {
		for i := range 1 + c.IntN(3) {
			inner := bad
			if badAt || i > 0 {
				inner = nil
			}
			sub := func() reflect.Type {
				if inner == nil && c.oneIn(4) {
					return pick(c, families).typ
				}
				return m.make(depth-1, inner)
			}
			one, many, opt := decl{k: kRef}, decl{k: kRef, many: true}, ""
			if c.oneIn(6) {
				one.uniq, many.uniq, opt = sys.AttrUniqueValue, sys.AttrUniqueValue, ",unique"
			}
			switch c.IntN(6) {
			case 0:
				add(sub(), m.ident(one), opt)
			case 1:
				add(reflect.PointerTo(sub()), m.ident(one), opt)
			case 2:
				add(reflect.SliceOf(sub()), m.ident(many), opt)
			case 3, 4:
				t := sub()
				var keys []tagged
				for _, k := range tagsOf(t) {
					if ft := t.Field(k.index).Type; k.ident != "sys/db/id" && !k.ignoreEmpty && isScalar(ft) && ft.Kind() != reflect.Bool && ft.Kind() != reflect.Float64 {
						keys = append(keys, k)
					}
				}
				if len(keys) == 0 {
					add(t, m.ident(one), opt)
					continue
				}
				key := pick(c, keys)
				et := t
				if c.oneIn(2) {
					et = reflect.PointerTo(t)
				}
				add(reflect.MapOf(t.Field(key.index).Type, et), m.ident(many), pick(c, []string{opt + ",key=" + key.ident, ",key=" + key.ident + opt}))
			default:
				add(sub(), m.ident(one), opt)
			}
		}
	}
	if c.oneIn(3) {
		t := pick(c, scalarTypes)
		value := m.ident(decl{k: kindOf(t)})
		if !used[value] {
			many, opt := decl{k: kRef, many: true}, ""
			if c.oneIn(6) {
				many.uniq, opt = sys.AttrUniqueValue, ",unique"
			}
			add(reflect.SliceOf(t), m.ident(many), pick(c, []string{opt + ",value=" + value, ",value=" + value + opt}))
		}
	}
	for range c.IntN(3) {
		fields = append(fields, pick(c, []reflect.StructField{
			{Type: reflect.TypeFor[chan int]()}, {Type: reflect.TypeFor[string](), Tag: `json:"attr"`},
			{Type: reflect.TypeFor[func()](), Tag: `attrs:"none"`}, {Type: reflect.TypeFor[map[string]any]()},
			{Type: reflect.TypeFor[int32](), Tag: `json:"n,omitempty" xml:"attr"`}, {Type: reflect.TypeFor[knot]()}, {Type: reflect.TypeFor[*badChan]()},
			{Type: reflect.TypeFor[string](), Tag: `json:"attr:\"made/none\""`}, {Type: reflect.TypeFor[int](), Tag: `xattr:"made/none,bogus"`}, {Type: reflect.TypeFor[int](), Tag: `Attr:"made/none,identity"`},
		}))
	}
	var embedded []reflect.StructField
	if c.oneIn(3) {
		// What is embedded without a tag is ignored too.
		t := pick(c, []reflect.Type{reflect.TypeFor[Embed0](), reflect.TypeFor[Embed1](), reflect.TypeFor[Embed2](), reflect.TypeFor[Malformed0](), reflect.TypeFor[Malformed1](), reflect.TypeFor[Malformed2]()})
		f := reflect.StructField{Name: t.Name(), Type: t, Anonymous: true, Tag: pick(c, []reflect.StructTag{"", `json:"attr"`, `xattr:"made/none"`})}
		if c.oneIn(2) {
			f.Type = reflect.PointerTo(t)
		}
		embedded = append(embedded, f)
	}
	if badAt {
		fields = append(fields, *bad)
	}
	c.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	for i := range fields {
		fields[i].Name = fmt.Sprint("F", i)
	}
	// Their names are their types'.
	for _, f := range embedded {
		fields = slices.Insert(fields, c.IntN(len(fields)+1), f)
	}
	return reflect.StructOf(fields)
}

// bad is a field no type may have, and why.
func (m *typeMaker) bad() (reflect.StructField, string) {
	c := m.c
	k := reflect.TypeFor[knot]()
	if c.oneIn(2) {
		t := pick(c, []reflect.Type{
			reflect.TypeFor[chan int](), reflect.TypeFor[func()](), reflect.TypeFor[any](), reflect.TypeFor[error](),
			reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
			reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](), reflect.TypeFor[uintptr](),
			reflect.TypeFor[float32](), reflect.TypeFor[complex64](), reflect.TypeFor[complex128](), reflect.TypeFor[[2]int](), reflect.TypeFor[[0]knot](), reflect.TypeFor[[]byte](),
			reflect.PointerTo(reflect.PointerTo(k)), reflect.TypeFor[**int](), reflect.TypeFor[*[]int](), reflect.TypeFor[*map[string]knot](), reflect.TypeFor[*chan int](), reflect.TypeFor[*int32](), reflect.TypeFor[*any](),
			reflect.TypeFor[[]*knot](), reflect.TypeFor[[]int](), reflect.TypeFor[[][]knot](), reflect.TypeFor[[]map[string]knot](), reflect.TypeFor[[]any](),
			reflect.TypeFor[map[string]int](), reflect.TypeFor[map[string]*int](), reflect.TypeFor[map[string][]knot](), reflect.TypeFor[map[string]any](), reflect.TypeFor[map[string]**knot](), reflect.TypeFor[time.Duration](),
		})
		opts := ""
		if t.Kind() == reflect.Map {
			opts = ",key=u/str/0"
		}
		return reflect.StructField{Type: t, Tag: quoteTag(m.prefix + "/bad" + opts)}, "a field of type " + t.String()
	}
	if c.oneIn(4) {
		t := pick(c, []reflect.Type{
			reflect.TypeFor[[]stamp](), reflect.TypeFor[[]knot](), reflect.TypeFor[[]Embed0](), reflect.TypeFor[[]int32](), reflect.TypeFor[[]uint64](), reflect.TypeFor[[]*int](), reflect.TypeFor[[]*time.Time](), reflect.TypeFor[[]*knot](),
			reflect.TypeFor[[]any](), reflect.TypeFor[[][]int](), reflect.TypeFor[[]float32](), reflect.TypeFor[[]map[string]knot](), reflect.TypeFor[[]badChan](), reflect.TypeFor[[]time.Duration](),
		})
		return reflect.StructField{Type: t, Tag: quoteTag(m.prefix + "/bad,value=" + m.prefix + "/badvalue")}, "values of type " + t.String()
	}
	opt := pick(c, []string{",", ",bogus", ",Identity", ", identity", ",unique ", ",key", ",value", ",identity,identity", ",unique,unique", ",identity,unique", ",unique,identity", ",ignoreempty,", ",omitempty", ",keys=x", ",ignoreEmpty", ",card=many"})
	return reflect.StructField{Type: reflect.TypeFor[string](), Tag: quoteTag(m.prefix + "/bad" + opt)}, "the tag directives " + opt
}

// contradiction is a field which declares an attribute otherwise than it is, and how.
func (m *typeMaker) contradiction(have decls) (reflect.StructField, string) {
	c := m.c
	var idents []string
	for ident := range have {
		idents = append(idents, ident)
	}
	sort.Strings(idents)
	ident := pick(c, idents)
	d := have[ident]
	if !d.many && c.oneIn(2) {
		opt, u := "identity", sys.AttrUniqueIdentity
		if c.oneIn(2) {
			opt, u = "unique", sys.AttrUniqueValue
		}
		for _, t := range scalarTypes {
			if kindOf(t) == d.k && d.uniq != u {
				if c.oneIn(2) {
					t = reflect.PointerTo(t)
				}
				return reflect.StructField{Type: t, Tag: quoteTag(ident + "," + opt)}, fmt.Sprintf("%q as %s, though it is %s", ident, opt, d)
			}
		}
	}
	if d.k == kRef && !d.many && c.oneIn(2) {
		return reflect.StructField{Type: reflect.TypeFor[[]knot](), Tag: quoteTag(ident)}, fmt.Sprintf("%q as a slice, though it is %s", ident, d)
	}
	var others []reflect.Type
	for _, t := range scalarTypes {
		if kindOf(t) != d.k {
			others = append(others, t)
		}
	}
	t := pick(c, others)
	if c.oneIn(2) {
		t = reflect.PointerTo(t)
	}
	return reflect.StructField{Type: t, Tag: quoteTag(ident)}, fmt.Sprintf("%q as a %s, though it is %s", ident, t, d)
}

// value makes up a value of a type.
func (m *typeMaker) value(v reflect.Value, depth int) {
	c := m.c
	typ := v.Type()
	for _, t := range tagsOf(typ) {
		f := v.Field(t.index)
		scalar := func(f reflect.Value) {
			m.n++
			k := kindOf(f.Type())
			w := &world{c: c}
			x := w.freshVal(k)
			if t.unique {
				switch k {
				case kStr:
					x = vstr(fmt.Sprint("v", m.n))
				case kInt:
					x = vint(int64(m.n))
				case kFloat:
					x = vfloat(float64(m.n))
				case kInst:
					x = vinst(int64(m.n))
				}
			}
			setScalarTo(f, x)
		}
		switch {
		case t.ident == "sys/db/id":
		case isScalar(f.Type()):
			if kindOf(f.Type()) == kBool && t.unique && !t.ignoreEmpty {
				// Only two entities may have it.
				m.n++
			}
			scalar(f)
		case f.Kind() == reflect.Pointer && isScalar(f.Type().Elem()):
			if kindOf(f.Type().Elem()) == kBool && t.unique || c.oneIn(3) {
				continue
			}
			f.Set(reflect.New(f.Type().Elem()))
			scalar(f.Elem())
		case f.Kind() == reflect.Pointer:
			if depth > 0 && c.oneIn(2) {
				f.Set(reflect.New(f.Type().Elem()))
				m.value(f.Elem(), depth-1)
			}
		case f.Kind() == reflect.Struct:
			m.value(f, depth-1)
		case f.Kind() == reflect.Slice && depth > 0:
			f.Set(reflect.MakeSlice(f.Type(), c.IntN(3), 3))
			for i := range f.Len() {
				if t.value != "" {
					setScalarTo(f.Index(i), (&world{c: c}).poolVal(kindOf(f.Type().Elem())))
				} else {
					m.value(f.Index(i), depth-1)
					if !says(f.Index(i)) {
						// An entry with nothing to record is refused, by design.
						f.Set(f.Slice(0, 0))
						break
					}
				}
			}
		case f.Kind() == reflect.Map && depth > 0:
			f.Set(reflect.MakeMap(f.Type()))
			for range c.IntN(3) {
				et := f.Type().Elem()
				p := reflect.New(et).Elem()
				e := p
				if et.Kind() == reflect.Pointer {
					p.Set(reflect.New(et.Elem()))
					e = p.Elem()
				}
				m.value(e, depth-1)
				for _, kt := range tagsOf(e.Type()) {
					if kt.ident == t.key {
						if kf := e.Field(kt.index); kf.Kind() == reflect.Pointer && !kf.IsNil() {
							f.SetMapIndex(kf.Elem().Convert(f.Type().Key()), p)
						} else if kf.Kind() != reflect.Pointer {
							f.SetMapIndex(kf.Convert(f.Type().Key()), p)
						}
					}
				}
			}
		}
	}
}

// says reports if a struct has anything to record.
func says(v reflect.Value) bool {
	for _, t := range tagsOf(v.Type()) {
		f := v.Field(t.index)
		switch {
		case t.ident == "sys/db/id":
		case isScalar(f.Type()):
			if !t.ignoreEmpty || !emptyScalar(f) {
				return true
			}
		case f.Kind() == reflect.Pointer && isScalar(f.Type().Elem()):
			if !f.IsNil() && (!t.ignoreEmpty || !emptyScalar(f.Elem())) {
				return true
			}
		case f.Kind() == reflect.Pointer:
			if !f.IsNil() {
				return true
			}
		case f.Kind() == reflect.Struct:
			return true
		default:
			if f.Len() > 0 {
				return true
			}
		}
	}
	return false
}

// fewBooleans reports that no entities may conflict over values of unique booleans.
func fewBooleans(typ reflect.Type, done map[reflect.Type]bool) bool {
	if done[typ] {
		return true
	}
	done[typ] = true
	for _, t := range tagsOf(typ) {
		ft := typ.Field(t.index).Type
		for ft.Kind() == reflect.Pointer || ft.Kind() == reflect.Slice || ft.Kind() == reflect.Map {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Bool && t.unique {
			return false
		}
		if ft.Kind() == reflect.Struct && ft != timeType && !fewBooleans(ft, done) {
			return false
		}
	}
	return true
}

// declared interprets the claims of a schema.
func declared(c *cse, typ reflect.Type, claims []types.Claim) (decls, bool) {
	byE := map[types.ERef]map[types.ID][]types.VRef{}
	var order []types.ERef
	for _, cl := range claims {
		e, a := cl.E, types.ID(0)
		switch x := cl.A.(type) {
		case types.ID:
			a = x
		case types.Ident:
			a = systemState.schema().idents[string(x)]
		}
		if _, is := e.(types.TempID); !is || cl.Retract || a == 0 {
			c.violated("the schema of %s claims %v", typ, cl)
			return nil, false
		}
		if byE[e] == nil {
			byE[e] = map[types.ID][]types.VRef{}
			order = append(order, e)
		}
		byE[e][a] = append(byE[e][a], cl.V)
	}
	out := decls{}
	for _, e := range order {
		ds := byE[e]
		var ident string
		d := decl{}
		for a, vs := range ds {
			for _, v := range vs {
				id, _ := v.(types.ID)
				if i, is := v.(types.Ident); is {
					id = systemState.schema().idents[string(i)]
				}
				ok := true
				switch a {
				case sys.DbIdent:
					s, is := v.(types.String)
					ok = is && (ident == "" || ident == string(s))
					ident = string(s)
				case sys.AttrType:
					k := kNone
					for _, o := range allKinds {
						if o.typeID() == id {
							k = o
						}
					}
					ok = k != kNone && (d.k == kNone || d.k == k)
					d.k = k
				case sys.AttrCardinality:
					ok = id == sys.AttrCardinalityMany || id == sys.AttrCardinalityOne && !d.many
					d.many = id == sys.AttrCardinalityMany
				case sys.AttrUnique:
					ok = (id == sys.AttrUniqueIdentity || id == sys.AttrUniqueValue) && (d.uniq == 0 || d.uniq == id)
					d.uniq = id
				default:
					ok = false
				}
				if !ok {
					c.violated("the schema of %s claims %d %v of %q", typ, a, v, ident)
					return nil, false
				}
			}
		}
		if old, ok := out[ident]; ok && old != d {
			c.violated("the schema of %s declares %q as %s and as %s", typ, ident, old, d)
			return nil, false
		}
		out[ident] = d
	}
	return out, true
}

func sameDecls(a, b decls) bool {
	if len(a) != len(b) {
		return false
	}
	for ident, d := range a {
		if b[ident] != d {
			return false
		}
	}
	return true
}

func init() {
	register(&check{
		id: "C24", quick: 1500, thorough: 30000,
		rule: "a few struct types, among them some made at random, whose schemas are written to a database, and some which are malformed; nontrivial if any attribute was declared",
		floors: map[string]int{
			"schemas compared": 1500, "attributes compared": 10000, "values of made types recorded": 500, "malformed types refused": 400, "schemas accepted again": 700,
		},
		run: runSchemas,
	})
}

func runSchemas(c *cse) {
	m := &typeMaker{c: c, prefix: "made", known: decls{}}
	// Types made here meet the families', and so may their attributes.
	for ident, a := range universe {
		if !strings.HasPrefix(ident, "sys/") {
			m.known[ident] = decl{a.K, a.Many, a.Unique}
		}
	}
	w := newWorld(c, pick(c, degrees))
	if w == nil {
		return
	}
	w.all = true
	var db public.Database
	if !c.guarded("NewDatabase", func() { db = public.NewDatabase(public.Config{}) }) {
		return
	}
	analyzer := models.BuildCachingAnalyzer()
	total := decls{}
	inPublic := decls{}
	c.trivial = true
	for range 2 + c.IntN(3) {
		if c.failed() {
			return
		}
		if c.oneIn(4) {
			badType(c, m, db, inPublic)
			continue
		}
		typ := pick(c, families).typ
		made := c.chance(0.7)
		if made {
			typ = m.make(c.IntN(3), nil)
		}
		c.log("type %s", trim(typ.String(), 3000))
		want := decls{}
		declsOf(typ, want, map[reflect.Type]bool{})
		var claims []types.Claim
		var err error
		if !c.guarded("schemas.Analyze", func() { claims, err = schemas.Analyze(typ) }) {
			return
		}
		if err != nil {
			c.violated("the schema of %s: %v", typ, err)
			return
		}
		got, ok := declared(c, typ, claims)
		if !ok {
			return
		}
		if !sameDecls(want, got) {
			c.violated("the schema of %s declares\n   %s\nbut must\n   %s", trim(typ.String(), 800), got, want)
			return
		}
		c.count("schemas compared", 1)
		c.count("attributes compared", len(want))
		c.feature(want.String())
		if len(want) > 0 {
			c.trivial = false
			if c.sample == "" {
				c.sample = trim(want.String(), 300)
			}
		}
		// The analyses agree.
		if !c.guarded("models.Analyze", func() {
			a, err1 := models.Analyze(typ)
			b, err2 := analyzer.Analyze(typ)
			b2, err3 := analyzer.Analyze(typ)
			if err1 != nil || err2 != nil || err3 != nil || !reflect.DeepEqual(a, b) || !reflect.DeepEqual(a, b2) {
				c.violated("analyses of %s differ: %v %v; %v %v; %v %v", typ, a, err1, b, err2, b2, err3)
			}
		}) {
			return
		}
		// A database takes it.
		for i := range 2 {
			before := w.st.clone()
			wr := w.write(types.Request{Claims: claims})
			if c.failed() {
				return
			}
			if wr.res.Error != nil {
				c.violated("the schema of %s is refused (time %d): %v", trim(typ.String(), 800), i, wr.res.Error)
				return
			}
			if i == 1 {
				c.count("schemas accepted again", 1)
				for d := range w.st {
					if _, ok := before[d]; !ok && d.A != sys.TxAt {
						c.violated("the schema of %s, accepted again, adds %s", typ, d)
					}
				}
			}
		}
		for ident, d := range want {
			total[ident] = d
		}
		have := decls{}
		for _, a := range w.sc.attrs {
			if a.ID >= sys.FirstUserID {
				have[a.Ident] = decl{a.K, a.Many, a.Unique}
			}
		}
		if !sameDecls(total, have) {
			c.violated("after the schema of %s there are\n   %s\nbut must be\n   %s", trim(typ.String(), 800), have, total)
			return
		}
		// It suffices to record a value.
		if !fewBooleans(typ, map[reflect.Type]bool{}) {
			continue
		}
		v := reflect.New(typ)
		m.value(v.Elem(), 3)
		x := v.Interface()
		if c.oneIn(2) {
			x = v.Elem().Interface()
		}
		var res public.Response
		if !c.guarded("Write", func() { res = db.Write(public.Request{Assertions: []any{x}}) }) {
			return
		}
		if res.Error != nil {
			c.violated("a value of %s is refused: %s: %v", trim(typ.String(), 800), trim(renderGo(x), 800), res.Error)
			return
		}
		for ident, d := range want {
			inPublic[ident] = d
		}
		c.count("values of made types recorded", 1)
		checkPublicDecls(c, res.Snap, inPublic, 0)
	}
}

type aDecl struct {
	Ident string           `attr:"sys/db/ident"`
	Type  map[uint64]*lite `attr:"sys/attr/type"`
	Card  map[uint64]*lite `attr:"sys/attr/cardinality"`
	Uniq  map[uint64]*lite `attr:"sys/attr/unique"`
}

// checkPublicDecls compares what a database of structs has declared.
func checkPublicDecls(c *cse, snap *public.Snapshot, want decls, extra int) {
	have := decls{}
	c.guarded("Find", func() {
		ts, err := public.BuildTypedSnapshot[aDecl](snap)
		if err != nil {
			bug("%v", err)
		}
		for id, missed := sys.FirstUserID, 0; missed < 4000; id++ {
			a := ts.Find(uint64(id))
			if a == nil || a.Ident == "" {
				missed++
				continue
			}
			missed = 0
			d := decl{}
			for t := range a.Type {
				for _, k := range allKinds {
					if k.typeID() == types.ID(t) {
						d.k = k
					}
				}
			}
			_, d.many = a.Card[uint64(sys.AttrCardinalityMany)]
			for u := range a.Uniq {
				d.uniq = types.ID(u)
			}
			if _, dup := have[a.Ident]; dup {
				c.violated("two attributes are %q", a.Ident)
			}
			have[a.Ident] = d
		}
	})
	if !sameDecls(have, want) && !c.failed() {
		c.violated("the database of structs has\n   %s\nbut must have\n   %s", have, want)
	}
}

// badType has a database refuse a type.
func badType(c *cse, m *typeMaker, db public.Database, want decls) {
	field, why := m.bad()
	if len(want) > 0 && c.oneIn(2) {
		field, why = m.contradiction(want)
	}
	known := decls{}
	for k, v := range m.known {
		known[k] = v
	}
	typ := reflect.StructOf([]reflect.StructField{{Name: "F0", Type: field.Type, Tag: field.Tag}})
	if c.oneIn(2) {
		typ = m.make(c.IntN(3), &field)
	}
	m.known = known // as none of it may be declared
	c.log("bad type %s", trim(typ.String(), 3000))
	x := reflect.New(typ)
	var y any = x.Interface()
	if c.oneIn(2) {
		y = x.Elem().Interface()
	}
	var res public.Response
	if !c.guarded("Write", func() { res = db.Write(public.Request{Assertions: []any{y}}) }) {
		return
	}
	if res.Error == nil {
		c.violated("%s is accepted, though it has %s", trim(typ.String(), 800), why)
		return
	}
	if !c.guarded("Analyze", func() {
		// If the schema may be made at all, no database takes it.
		_, _ = models.Analyze(typ)
		_, _ = schemas.Analyze(typ)
	}) {
		return
	}
	c.count("malformed types refused", 1)
	c.feature(why)
	checkPublicDecls(c, res.Snap, want, 0)
}
