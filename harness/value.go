package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// The reference representation of values is independent of the repository's: a
// comparable struct, so that equality of values is == and states are plain maps.

type kind uint8

const (
	kNone kind = iota
	kRef
	kStr
	kInt
	kBool
	kInst
	kFloat
)

var allKinds = []kind{kRef, kStr, kInt, kBool, kInst, kFloat}

func (k kind) String() string {
	return [...]string{"none", "ref", "str", "int", "bool", "inst", "float"}[k]
}

// typeID is the id of the value type entity of a kind.
func (k kind) typeID() types.ID {
	return map[kind]types.ID{
		kRef: sys.AttrTypeRef, kStr: sys.AttrTypeString, kInt: sys.AttrTypeInt,
		kBool: sys.AttrTypeBool, kInst: sys.AttrTypeInst, kFloat: sys.AttrTypeFloat,
	}[k]
}

func kindOfType(id types.ID) kind {
	for _, k := range allKinds {
		if k.typeID() == id {
			return k
		}
	}
	return kNone
}

type val struct {
	K kind
	N uint64
	S string
}

var nanBits = math.Float64bits(math.NaN())

func vref(id types.ID) val { return val{K: kRef, N: uint64(id)} }
func vstr(s string) val    { return val{K: kStr, S: s} }
func vint(i int64) val     { return val{K: kInt, N: uint64(i)} }
func vinst(ms int64) val   { return val{K: kInst, N: uint64(ms)} }
func vbool(b bool) val {
	if b {
		return val{K: kBool, N: 1}
	}
	return val{K: kBool}
}
func vfloat(f float64) val {
	switch {
	case f != f:
		return val{K: kFloat, N: nanBits}
	case f == 0:
		return val{K: kFloat}
	}
	return val{K: kFloat, N: math.Float64bits(f)}
}

// fromValue converts a repository value. It is none if it is not one of the six types.
func fromValue(x any) val {
	switch v := x.(type) {
	case types.ID:
		return vref(v)
	case types.String:
		return vstr(string(v))
	case types.Int:
		return vint(int64(v))
	case types.Bool:
		return vbool(bool(v))
	case types.Inst:
		return vinst(time.Time(v).UnixMilli())
	case types.Float:
		return vfloat(float64(v))
	}
	return val{}
}

func (v val) value() types.Value {
	switch v.K {
	case kRef:
		return types.ID(v.N)
	case kStr:
		return types.String(v.S)
	case kInt:
		return types.Int(int64(v.N))
	case kBool:
		return types.Bool(v.N == 1)
	case kInst:
		return types.Inst(time.UnixMilli(int64(v.N)).UTC())
	case kFloat:
		return types.Float(math.Float64frombits(v.N))
	}
	return nil
}

func (v val) vref() types.VRef {
	x := v.value()
	if x == nil {
		return nil
	}
	return x.(types.VRef)
}

func (v val) String() string {
	switch v.K {
	case kStr:
		if len(v.S) > 40 {
			return fmt.Sprintf("str(%q... len %d)", v.S[:20], len(v.S))
		}
		return fmt.Sprintf("str(%q)", v.S)
	case kRef:
		return fmt.Sprintf("ref(%d)", v.N)
	case kInt:
		return fmt.Sprintf("int(%d)", int64(v.N))
	case kBool:
		return fmt.Sprintf("bool(%v)", v.N == 1)
	case kInst:
		return fmt.Sprintf("inst(%dms)", int64(v.N))
	case kFloat:
		return fmt.Sprintf("float(%v)", math.Float64frombits(v.N))
	}
	return "none"
}

// less orders values of one kind as documented: naturally, with not-a-number lowest.
func (v val) less(w val) bool {
	if v.K != w.K {
		return v.K < w.K
	}
	switch v.K {
	case kStr:
		return v.S < w.S
	case kInt, kInst:
		return int64(v.N) < int64(w.N)
	case kFloat:
		a, b := math.Float64frombits(v.N), math.Float64frombits(w.N)
		if a != a {
			return b == b
		}
		return a < b
	}
	return v.N < w.N
}

// eav is the identity of a datum.
type eav struct {
	E, A types.ID
	V    val
}

func (d eav) String() string { return fmt.Sprintf("[%d %d %s]", d.E, d.A, d.V) }

func lessEAV(a, b eav) bool {
	if a.E != b.E {
		return a.E < b.E
	}
	if a.A != b.A {
		return a.A < b.A
	}
	return a.V.less(b.V)
}

func lessAEV(a, b eav) bool {
	if a.A != b.A {
		return a.A < b.A
	}
	if a.E != b.E {
		return a.E < b.E
	}
	return a.V.less(b.V)
}

// state is a database's set of datums with the transactions that introduced them.
type state map[eav]types.ID

func (s state) clone() state {
	c := make(state, len(s))
	for k, v := range s {
		c[k] = v
	}
	return c
}

func (s state) sorted() []eav {
	out := make([]eav, 0, len(s))
	for d := range s {
		out = append(out, d)
	}
	sort.Slice(out, func(i, j int) bool { return lessEAV(out[i], out[j]) })
	return out
}

// diff lists the datums in which two states differ.
func diffStates(want, got state, withT bool) (missing, extra, retimed []eav) {
	for d, t := range want {
		gt, ok := got[d]
		switch {
		case !ok:
			missing = append(missing, d)
		case withT && gt != t:
			retimed = append(retimed, d)
		}
	}
	for d := range got {
		if _, ok := want[d]; !ok {
			extra = append(extra, d)
		}
	}
	for _, l := range [][]eav{missing, extra, retimed} {
		sort.Slice(l, func(i, j int) bool { return lessEAV(l[i], l[j]) })
	}
	return
}

func (s state) String() string {
	var b strings.Builder
	for _, d := range s.sorted() {
		if d.E >= sys.FirstUserID {
			fmt.Fprintf(&b, "    %s @%d\n", d, s[d])
		}
	}
	return b.String()
}

// dump reads every datum of a snapshot by one full scan.
func dump(snap types.Snapshot) (s state, dups int) {
	s = state{}
	for d := range snap.Select(types.Claim{}) {
		k := eav{d.E, d.A, fromValue(d.V)}
		if _, ok := s[k]; ok {
			dups++
		}
		s[k] = d.T
	}
	return
}

// digest is an order-sensitive rendering of everything a full scan yields.
func digest(snap types.Snapshot) string {
	var b strings.Builder
	for d := range snap.Select(types.Claim{}) {
		fmt.Fprintf(&b, "%d %d %s %d\n", d.E, d.A, fromValue(d.V), d.T)
	}
	return b.String()
}

// attrInfo is what a state says about an attribute.
type attrInfo struct {
	ID     types.ID
	Ident  string
	K      kind
	Many   bool
	Unique types.ID
	Card   types.ID
}

// schema is derived from the datums of a state alone.
type schema struct {
	attrs  map[types.ID]*attrInfo
	idents map[string]types.ID
	holder map[av]types.ID
	byE    map[types.ID][]eav
}

type av struct {
	A types.ID
	V val
}

func (s state) schema() *schema {
	sc := &schema{map[types.ID]*attrInfo{}, map[string]types.ID{}, map[av]types.ID{}, map[types.ID][]eav{}}
	get := func(id types.ID) *attrInfo {
		a := sc.attrs[id]
		if a == nil {
			a = &attrInfo{ID: id}
			sc.attrs[id] = a
		}
		return a
	}
	for d := range s {
		switch d.A {
		case sys.AttrType:
			get(d.E).K = kindOfType(types.ID(d.V.N))
		case sys.AttrCardinality:
			a := get(d.E)
			a.Card = types.ID(d.V.N)
			a.Many = a.Card == sys.AttrCardinalityMany
		case sys.AttrUnique:
			get(d.E).Unique = types.ID(d.V.N)
		case sys.DbIdent:
			sc.idents[d.V.S] = d.E
		}
		sc.byE[d.E] = append(sc.byE[d.E], d)
	}
	for d := range s {
		if a := sc.attrs[d.A]; a != nil && a.Unique != 0 {
			sc.holder[av{d.A, d.V}] = d.E
		}
		if d.A == sys.DbIdent {
			if a := sc.attrs[d.E]; a != nil {
				a.Ident = d.V.S
			}
		}
	}
	for id, a := range sc.attrs {
		if a.K == kNone {
			delete(sc.attrs, id)
		}
	}
	return sc
}
