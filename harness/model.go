package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// The reference model of a write: a pure function of a state and a request.
// Nothing here is derived from how the database works; it states what the
// documentation promises, and leaves open (flex) what the documentation does.

// reason is why a request must be rejected.
type reason string

const (
	rUnresolved reason = "unresolved"  // an entity, attribute or value reference names nothing
	rType       reason = "type"        // a value not of its attribute's type, or missing
	rUnique     reason = "unique"      // two entities would hold one unique value
	rTempid     reason = "tempid"      // a tempid's identities name two entities
	rValueTemp  reason = "value-temp"  // a tempid claims a held value-unique value
	rCard       reason = "cardinality" // two values for a cardinality one attribute
	rAttr       reason = "attr"        // an attribute would change or be incomplete
	rSystem     reason = "system"      // the system namespace or a system entity
	rRetraction reason = "retraction"  // a retraction naming nothing, or several entities
)

// node is an entity as denoted in a request: extant, or to be decided.
type node struct {
	parent *node
	id     types.ID // when bound to an extant entity or the transaction
	temps  []types.TempID
	txn    bool
	order  int
}

func (n *node) find() *node {
	for n.parent != nil {
		n = n.parent
	}
	return n
}

type rclaim struct {
	e       *node
	a       *attrInfo
	v       val
	vnode   *node // when the value is a tempid
	retract bool
	temp    bool
	src     types.Claim
}

// outcome is what the model requires of the response to a request.
type outcome struct {
	reject   map[reason]string // why it must be rejected, if it must
	flex     []string          // why either outcome is allowed, if nothing requires a rejection
	loose    bool              // so much is left open that only invariants can be checked
	keeps    bool              // it retracts what may not be
	build    func(temps map[types.TempID]types.ID, txn types.ID) (want state, free map[ea]bool, problems []string)
	temps    []types.TempID
	classes  [][]types.TempID
	bound    map[types.TempID]types.ID // tempids which must resolve to these entities
	txnTemps map[types.TempID]bool     // tempids which must resolve to the transaction
}

type ea struct{ E, A types.ID }

func (o *outcome) mustReject() bool { return len(o.reject) > 0 }
func (o *outcome) mustAccept() bool { return len(o.reject) == 0 && len(o.flex) == 0 }
func (o *outcome) reasons() string {
	var out []string
	for r, why := range o.reject {
		out = append(out, string(r)+": "+why)
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// known reports what the history says about an id: issued, unissued or unclear.
type known interface {
	issued(id types.ID) (yes bool, unclear bool)
}

func resolveIDRef(sc *schema, ref types.IDRef, depth int) types.ID {
	switch r := ref.(type) {
	case types.ID:
		return r
	case types.Ident:
		return sc.idents[string(r)]
	case types.LookupRef:
		return resolveLookup(sc, r, depth+1)
	}
	return 0
}

func resolveLookup(sc *schema, ref types.LookupRef, depth int) types.ID {
	a := sc.attrs[resolveIDRef(sc, ref.A, depth)]
	if a == nil || a.Unique == 0 {
		return 0
	}
	v := fromValue(ref.V)
	if v.K != a.K {
		return 0
	}
	return sc.holder[av{a.ID, v}]
}

func step(pre state, sc *schema, kn known, req types.Request) *outcome {
	o := &outcome{reject: map[reason]string{}, bound: map[types.TempID]types.ID{}, txnTemps: map[types.TempID]bool{}}
	bad := func(r reason, f string, args ...any) {
		if _, ok := o.reject[r]; !ok {
			o.reject[r] = fmt.Sprintf(f, args...)
		}
	}
	flex := func(f string, args ...any) { o.flex = append(o.flex, fmt.Sprintf(f, args...)) }

	// Entity retractions.
	entities := map[types.ID]bool{}
	for _, r := range req.Retractions {
		var id types.ID
		if len(r.Constraints) == 0 {
			bad(rRetraction, "no constraints")
		}
		for ref := range r.Constraints {
			x := resolveIDRef(sc, ref, 0)
			switch {
			case x == 0:
				bad(rRetraction, "%v names nothing", ref)
			case id == 0:
				id = x
			case id != x:
				bad(rRetraction, "names %d and %d", id, x)
			}
			if raw, ok := ref.(types.ID); ok && raw != 0 {
				if yes, _ := kn.issued(raw); !yes {
					flex("retracting an id that was not issued")
				}
			}
		}
		if id != 0 {
			entities[id] = true
			if id < sys.FirstUserID && len(sc.byE[id]) > 0 {
				bad(rSystem, "retracts system entity %d", id)
				o.keeps = true
			}
			if sc.attrs[id] != nil {
				bad(rAttr, "retracts attribute %d", id)
				o.keeps = true
			}
		}
	}

	// Resolve the claims.
	nodes := map[any]*node{}
	temps := map[types.TempID]*node{}
	var txnNode *node
	extant := func(id types.ID) *node {
		n := nodes[id]
		if n == nil {
			n = &node{id: id, order: len(nodes)}
			nodes[id] = n
		}
		return n
	}
	temp := func(t types.TempID) *node {
		n := temps[t]
		if n == nil {
			n = &node{temps: []types.TempID{t}, order: len(nodes) + len(temps)}
			temps[t] = n
			o.temps = append(o.temps, t)
		}
		return n
	}
	var claims []*rclaim
	for i, c := range req.Claims {
		rc := &rclaim{retract: c.Retract, src: c}
		switch e := c.E.(type) {
		case types.ID:
			yes, unclear := kn.issued(e)
			switch {
			case unclear:
				flex("claim %d entity id may not have been issued", i)
			case !yes:
				bad(rUnresolved, "claim %d entity id %d was not issued", i, e)
			}
			rc.e = extant(e)
		case types.Ident:
			id := sc.idents[string(e)]
			if id == 0 {
				bad(rUnresolved, "claim %d entity ident %q", i, e)
			}
			rc.e = extant(id)
		case types.LookupRef:
			id := resolveLookup(sc, e, 0)
			if id == 0 {
				bad(rUnresolved, "claim %d entity lookup %v", i, e)
			}
			rc.e = extant(id)
		case types.TempID:
			rc.e = temp(e)
			rc.temp = true
		case types.TxnID:
			if txnNode == nil {
				txnNode = &node{txn: true}
			}
			rc.e = txnNode
		default:
			bad(rUnresolved, "claim %d has no entity", i)
		}
		var aid types.ID
		switch a := c.A.(type) {
		case types.ID:
			aid = a
		case types.Ident:
			aid = sc.idents[string(a)]
		case types.LookupRef:
			aid = resolveLookup(sc, a, 0)
		}
		rc.a = sc.attrs[aid]
		if rc.a == nil {
			bad(rUnresolved, "claim %d attribute %v", i, c.A)
		}
		switch v := c.V.(type) {
		case types.Ident:
			id := sc.idents[string(v)]
			if id == 0 {
				bad(rUnresolved, "claim %d value ident %q", i, v)
			}
			rc.v = vref(id)
		case types.LookupRef:
			id := resolveLookup(sc, v, 0)
			if id == 0 {
				bad(rUnresolved, "claim %d value lookup %v", i, v)
			}
			rc.v = vref(id)
		case types.TempID:
			rc.vnode = temp(v)
			rc.v = val{K: kRef}
		default:
			rc.v = fromValue(v)
			if rc.v.K == kNone {
				bad(rType, "claim %d value %v", i, v)
			}
			if rc.v.K == kRef && rc.v.N == 0 {
				flex("claim %d refers to id 0", i)
			}
		}
		if rc.a != nil && rc.v.K != kNone && rc.v.K != rc.a.K {
			bad(rType, "claim %d value %v is not %s", i, rc.v, rc.a.K)
		}
		claims = append(claims, rc)
	}
	if len(o.reject) > 0 {
		return o
	}

	// Whether a tempid is the entity which holds an identity, or another to which the request
	// gives it, is left open.
	for _, c := range claims {
		if c.retract || c.temp || c.a.Unique != sys.AttrUniqueIdentity {
			continue
		}
		for _, x := range claims {
			if x.temp && !x.retract && x.a == c.a && x.v == c.v && x.vnode == c.vnode {
				if h := sc.holder[av{c.a.ID, c.v}]; h != 0 && h != c.e.id {
					flex("a tempid claims an identity which passes from one entity to another")
					o.loose = true
					return o
				}
			}
		}
	}

	// Resolve the tempids by their identities, to a fixed point.
	union := func(n, m *node) (*node, bool) {
		n, m = n.find(), m.find()
		if n == m {
			return n, true
		}
		nb, mb := n.id != 0 || n.txn, m.id != 0 || m.txn
		if nb && mb {
			return n, false
		}
		if mb || (!nb && m.order < n.order) {
			n, m = m, n
		}
		m.parent = n
		n.temps = append(n.temps, m.temps...)
		return n, true
	}
	value := func(c *rclaim) (val, bool) { // the value if known already
		if c.vnode == nil {
			return c.v, true
		}
		n := c.vnode.find()
		if n.id != 0 {
			return vref(n.id), true
		}
		return val{}, false
	}
	type key struct {
		a types.ID
		v val
		n *node
	}
	keyOf := func(c *rclaim) key {
		v, ok := value(c)
		if ok {
			return key{c.a.ID, v, nil}
		}
		return key{c.a.ID, val{}, c.vnode.find()}
	}
	identity := func(c *rclaim) bool { return !c.retract && c.a.Unique == sys.AttrUniqueIdentity }
	for changed := true; changed; {
		changed = false
		claimants := map[key]*node{}
		concretes := map[key]bool{}
		for _, c := range claims {
			if !identity(c) {
				continue
			}
			if c.vnode != nil {
				flex("an identity whose value is a tempid")
			}
			k := keyOf(c)
			if !c.temp {
				concretes[k] = true
				continue
			}
			if k.n == nil {
				if h := sc.holder[av{k.a, k.v}]; h != 0 {
					before := c.e.find()
					after, ok := union(before, extant(h))
					if !ok {
						bad(rTempid, "%v is both %d and %d", before.temps, before.id, h)
					}
					changed = changed || before != after
				}
			}
			if other := claimants[k]; other != nil {
				before, obefore := c.e.find(), other.find()
				after, ok := union(before, obefore)
				if !ok {
					bad(rTempid, "%v and %v claim %v but are %d and %d", before.temps, obefore.temps, k.v, before.id, obefore.id)
				}
				changed = changed || before != after || obefore != after
			} else {
				claimants[k] = c.e
			}
		}
		if len(o.reject) > 0 {
			return o
		}
		// A tempid and an extant entity claiming the same value which neither held.
		for _, c := range claims {
			if !identity(c) || c.temp {
				continue
			}
			if other := claimants[keyOf(c)]; other != nil && other.find() != c.e.find() {
				flex("a tempid and an extant entity claim %v", keyOf(c).v)
				before := other.find()
				after, ok := union(before, c.e)
				if ok && before != after {
					changed = true
				}
			}
		}
	}
	// Value-unique values claimed by tempids.
	for _, c := range claims {
		if c.retract || !c.temp || c.a.Unique != sys.AttrUniqueValue {
			continue
		}
		v, ok := value(c)
		if !ok {
			continue
		}
		h := sc.holder[av{c.a.ID, v}]
		for _, x := range claims {
			if !x.temp && !x.retract && x.a == c.a && x.e.find() == c.e.find() {
				if u, ok := value(x); ok && u == v {
					flex("a tempid and the entity to which it resolves claim a unique value")
				}
			}
		}
		switch {
		case h == 0:
		case c.e.find().id == h:
			flex("a tempid resolved to the holder restates its unique value")
		default:
			gives := false
			for _, x := range claims {
				if x.e.find().id == h && x.a == c.a {
					gives = true
				}
			}
			if gives || entities[h] {
				flex("a value given up in the request")
			} else {
				bad(rValueTemp, "tempid claims %v held by %d", v, h)
			}
		}
	}

	// Bind the classes.
	seen := map[*node]bool{}
	for _, t := range o.temps {
		n := temps[t].find()
		if n.id != 0 {
			o.bound[t] = n.id
		}
		if n.txn {
			o.txnTemps[t] = true
		}
		if !seen[n] {
			seen[n] = true
			o.classes = append(o.classes, n.temps)
		}
	}

	// To state the rest we need ids for new entities: stand-ins no request can name.
	const base = types.ID(1) << 62
	standin := map[*node]types.ID{}
	idOf := func(n *node) types.ID {
		n = n.find()
		if n.id != 0 {
			return n.id
		}
		id := standin[n]
		if id == 0 {
			id = base + types.ID(len(standin))
			standin[n] = id
		}
		return id
	}
	type res struct {
		d       eav
		retract bool
		c       *rclaim
	}
	var rs []res
	for _, c := range claims {
		d := eav{idOf(c.e), c.a.ID, c.v}
		if c.vnode != nil {
			d.V = vref(idOf(c.vnode))
		}
		rs = append(rs, res{d, c.retract, c})
	}
	asserted := map[eav]bool{}
	retracted := map[eav]bool{}
	for _, r := range rs {
		if r.retract {
			retracted[r.d] = true
		} else {
			asserted[r.d] = true
		}
	}
	for e := range entities {
		for _, d := range sc.byE[e] {
			retracted[d] = true
		}
	}
	free := map[ea]bool{}
	for d := range asserted {
		if retracted[d] {
			free[ea{d.E, d.A}] = true
			flex("%v is both asserted and retracted", d)
		}
	}

	// The system.
	for _, r := range rs {
		if r.d.E < sys.FirstUserID {
			bad(rSystem, "claim about %d", r.d.E)
		}
		if r.d.A == sys.DbIdent && strings.HasPrefix(r.d.V.S, "sys/") {
			if r.retract {
				flex("retracts a system ident from an entity which does not hold it")
			} else {
				bad(rSystem, "claims ident %q", r.d.V.S)
			}
		}
		if r.d.A == sys.DbIdent && (r.d.V.S == "sys" || r.d.V.S == "") {
			flex("claims ident %q", r.d.V.S)
		}
	}

	// Cardinality.
	ones := map[ea]val{}
	for _, r := range rs {
		if r.retract || r.c.a.Many {
			continue
		}
		k := ea{r.d.E, r.d.A}
		v, ok := ones[k]
		if ok && v != r.d.V {
			if retracted[r.d] || retracted[eav{k.E, k.A, v}] || free[k] {
				flex("%v has two values of which one is retracted", k)
				free[k] = true
			} else {
				bad(rCard, "%v has values %v and %v", k, v, r.d.V)
			}
		}
		ones[k] = r.d.V
	}

	// The result, over stand-ins.
	want := state{}
	const now = types.ID(1)<<62 - 1
	for d, t := range pre {
		if retracted[d] && !asserted[d] {
			continue
		}
		if v, ok := ones[ea{d.E, d.A}]; ok && v != d.V {
			continue
		}
		want[d] = t
	}
	for d := range asserted {
		if _, ok := want[d]; !ok {
			want[d] = now
		}
	}

	// Attributes.
	touched := map[types.ID]bool{}
	for _, r := range rs {
		attr := sc.attrs[r.d.E]
		switch r.d.A {
		case sys.AttrType, sys.AttrCardinality, sys.AttrUnique:
			switch {
			case r.retract && attr != nil:
				if _, ok := pre[r.d]; ok {
					bad(rAttr, "retracts %v of an attribute", r.d)
				} else {
					flex("retracts %v which an attribute does not have", r.d)
				}
			case r.retract:
				flex("retracts an attribute datum from another entity")
			case attr != nil:
				if _, ok := pre[r.d]; !ok {
					bad(rAttr, "changes %v of an attribute", r.d)
				}
			default:
				touched[r.d.E] = true
			}
		case sys.DbIdent:
			switch {
			case attr == nil:
			case r.retract:
				if attr.Ident == r.d.V.S {
					bad(rAttr, "retracts an attribute's ident")
				} else {
					flex("retracts an ident which an attribute does not have")
				}
			case attr.Ident != r.d.V.S:
				bad(rAttr, "renames an attribute")
			}
		}
	}
	for e := range touched {
		var ident string
		var typ, card, unique types.ID
		has := map[types.ID]bool{}
		for d := range want {
			if d.E != e {
				continue
			}
			has[d.A] = true
			switch d.A {
			case sys.DbIdent:
				ident = d.V.S
				if free[ea{e, d.A}] {
					has[d.A] = asserted[d] // retracting the ident of a new attribute may not leave it without
				}
			case sys.AttrType:
				typ = types.ID(d.V.N)
			case sys.AttrCardinality:
				card = types.ID(d.V.N)
			case sys.AttrUnique:
				unique = types.ID(d.V.N)
			}
		}
		switch {
		case !has[sys.DbIdent]:
			bad(rAttr, "attribute %d has no ident", e)
		case !has[sys.AttrType]:
			bad(rAttr, "attribute %q has no type", ident)
		case kindOfType(typ) == kNone:
			bad(rAttr, "attribute %q has type %d", ident, typ)
		case has[sys.AttrCardinality] && card != sys.AttrCardinalityOne && card != sys.AttrCardinalityMany:
			bad(rAttr, "attribute %q has cardinality %d", ident, card)
		case has[sys.AttrUnique] && unique != sys.AttrUniqueIdentity && unique != sys.AttrUniqueValue:
			bad(rAttr, "attribute %q has uniqueness %d", ident, unique)
		}
		if !asserted[eav{e, sys.DbIdent, vstr(ident)}] {
			flex("an entity becomes an attribute without restating its ident")
		}
	}

	// Uniqueness.
	holders := map[av]types.ID{}
	for d := range want {
		a := sc.attrs[d.A]
		if a == nil || a.Unique == 0 {
			continue
		}
		k := av{d.A, d.V}
		if h, ok := holders[k]; ok && h != d.E {
			if free[ea{h, d.A}] || free[ea{d.E, d.A}] {
				flex("%v may be held twice", k)
			} else {
				bad(rUnique, "%v held by %d and %d", k, h, d.E)
			}
		}
		holders[k] = d.E
	}
	for d := range asserted {
		a := sc.attrs[d.A]
		if a.Unique == 0 {
			continue
		}
		if h, ok := sc.holder[av{d.A, d.V}]; ok && h != d.E {
			flex("%v is given up by %d in the request", d.V, h)
		}
		for c := range asserted {
			if c.A == d.A && c.V == d.V && c.E != d.E {
				flex("%v is claimed by two entities", d.V)
			}
		}
	}

	o.build = func(actual map[types.TempID]types.ID, txn types.ID) (out state, outFree map[ea]bool, problems []string) {
		back := map[types.ID]types.ID{}
		for t, n := range temps {
			n = n.find()
			if s, ok := standin[n]; ok && !n.txn {
				back[s] = actual[t]
			}
		}
		if txnNode != nil {
			if s, ok := standin[txnNode.find()]; ok {
				back[s] = txn
			}
		}
		m := func(id types.ID) types.ID {
			if x, ok := back[id]; ok {
				return x
			}
			return id
		}
		out = make(state, len(want))
		for d, t := range want {
			if t == now {
				t = txn
			}
			d.E = m(d.E)
			if d.V.K == kRef {
				d.V = vref(m(types.ID(d.V.N)))
			}
			out[d] = t
		}
		outFree = map[ea]bool{}
		for k := range free {
			outFree[ea{m(k.E), k.A}] = true
		}
		return
	}
	return o
}
