package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// build accumulates a request.
type build struct {
	claims      []types.Claim
	retractions []types.Retraction
	temps       int
	prefix      string
	strange     int // where to begin among the strange tempids, if at all
}

func (b *build) temp() types.TempID {
	b.temps++
	if b.strange > 0 && b.temps <= len(strangeTemps) {
		return strangeTemps[(b.strange+b.temps)%len(strangeTemps)]
	}
	return types.TempID(fmt.Sprintf("%s%d", b.prefix, b.temps))
}

func (b *build) add(cs ...types.Claim) { b.claims = append(b.claims, cs...) }

// genOps extend a request with something of interest. They return false if there is no occasion for it.
var genOps map[string]func(w *world, b *build) bool

func (w *world) attrWhere(f func(a *attrInfo) bool) *attrInfo {
	as := w.userAttrs(f)
	if len(as) == 0 {
		return nil
	}
	return pick(w.c, as)
}

// plainly are the system attributes which any entity may have, as they mean nothing to the database.
var plainly = []types.ID{sys.DbRank, sys.TxAt}

// anyAttr is an attribute of which entities may have values, a few of them of the system.
func (w *world) anyAttr(f func(a *attrInfo) bool) *attrInfo {
	if w.c.oneIn(10) {
		if a := w.sc.attrs[pick(w.c, plainly)]; f == nil || f(a) {
			return a
		}
	}
	return w.attrWhere(f)
}

func unique(a *attrInfo) bool   { return a.Unique != 0 }
func identity(a *attrInfo) bool { return a.Unique == sys.AttrUniqueIdentity }
func single(a *attrInfo) bool   { return !a.Many }
func many(a *attrInfo) bool     { return a.Many }

func (w *world) heldDatum(f func(d eav, a *attrInfo) bool) (d eav, a *attrInfo, ok bool) {
	ds := w.datums(func(d eav, a *attrInfo) bool {
		return a != nil && (d.A >= sys.FirstUserID || d.E >= sys.FirstUserID && slices.Contains(plainly, d.A)) && (f == nil || f(d, a))
	})
	if len(ds) == 0 {
		return
	}
	d = pick(w.c, ds)
	return d, w.sc.attrs[d.A], true
}

func (w *world) freeVal(a *attrInfo) (v val, ok bool) {
	for range 20 {
		v = w.someVal(a)
		if _, held := w.sc.holder[av{a.ID, v}]; !held {
			return v, true
		}
	}
	return
}

// valueFor is a value which the entity may take.
func (w *world) valueFor(a *attrInfo) (val, bool) {
	if a.Unique != 0 {
		return w.freeVal(a)
	}
	return w.someVal(a), true
}

func (w *world) entity() (types.ID, bool) {
	es := w.entities()
	if len(es) == 0 {
		return 0, false
	}
	return pick(w.c, es), true
}

func declClaims(e types.ERef, ident string, k types.ID, card, uniq types.ID) []types.Claim {
	cs := []types.Claim{
		{E: e, A: sys.DbIdent, V: types.String(ident)},
		{E: e, A: sys.AttrType, V: k},
	}
	if card != 0 {
		cs = append(cs, types.Claim{E: e, A: sys.AttrCardinality, V: card})
	}
	if uniq != 0 {
		cs = append(cs, types.Claim{E: e, A: sys.AttrUnique, V: uniq})
	}
	return cs
}

// vary replaces system ids in declarations with other references to them.
func (w *world) vary(cs []types.Claim) []types.Claim {
	out := make([]types.Claim, len(cs))
	for i, cl := range cs {
		if a, ok := cl.A.(types.ID); ok {
			cl.A = w.aref(w.sc.attrs[a], 0)
		}
		if v, ok := cl.V.(types.ID); ok {
			cl.V = w.vref(vref(v))
		}
		out[i] = cl
	}
	w.c.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func attrIdent(k kind, many bool, uniq types.ID) string {
	card, u := "one", "plain"
	if many {
		card = "many"
	}
	switch uniq {
	case sys.AttrUniqueIdentity:
		u = "identity"
	case sys.AttrUniqueValue:
		u = "value"
	}
	return fmt.Sprintf("%s/%s/%s", k, card, u)
}

// declareAttrs declares attributes of every combination of type, cardinality and uniqueness, or some.
func (w *world) declareAttrs(n int) bool {
	c := w.c
	type decl struct {
		ident      string
		k          kind
		card, uniq types.ID
	}
	var all []decl
	for _, k := range allKinds {
		for _, m := range []bool{false, true} {
			for _, u := range []types.ID{0, sys.AttrUniqueIdentity, sys.AttrUniqueValue} {
				card := sys.AttrCardinalityMany
				if !m {
					card = pick(c, []types.ID{0, sys.AttrCardinalityOne})
				}
				all = append(all, decl{attrIdent(k, m, u), k, card, u})
			}
		}
	}
	c.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if n < len(all) {
		all = all[:n]
	}
	for len(all) > 0 {
		k := 1 + c.IntN(len(all))
		if c.oneIn(2) {
			k = len(all)
		}
		b := &build{prefix: "a"}
		for _, d := range all[:k] {
			b.add(w.vary(declClaims(b.temp(), d.ident, d.k.typeID(), d.card, d.uniq))...)
		}
		if !w.write(types.Request{Claims: b.claims}).accepted {
			if w.c.failed() {
				return false
			}
		}
		all = all[k:]
	}
	return len(w.attrs()) > 0
}

func init() {
	genOps = map[string]func(w *world, b *build) bool{
		"new": func(w *world, b *build) bool {
			t := b.temp()
			ok := false
			used := map[types.ID]bool{}
			for range 1 + w.c.IntN(4) {
				a := w.anyAttr(nil)
				if a == nil {
					return false
				}
				if used[a.ID] {
					continue
				}
				used[a.ID] = true
				v, has := w.valueFor(a)
				if !has {
					continue
				}
				ok = true
				b.add(w.claim(t, a, w.vref(v), false))
			}
			return ok
		},
		"assert": func(w *world, b *build) bool {
			e, ok := w.entity()
			a := w.anyAttr(nil)
			if !ok || a == nil {
				return false
			}
			v, ok := w.valueFor(a)
			if ok {
				b.add(w.claim(w.eref(e), a, w.vref(v), false))
			}
			return ok
		},
		"restate": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(nil)
			if ok {
				b.add(w.claim(w.eref(d.E), a, w.vref(d.V), false))
			}
			return ok
		},
		"retract": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(nil)
			if ok {
				b.add(w.claim(w.eref(d.E), a, w.vref(d.V), true))
			}
			return ok
		},
		"retractabsent": func(w *world, b *build) bool {
			e, ok := w.entity()
			a := w.anyAttr(nil)
			if !ok || a == nil {
				return false
			}
			v := w.someVal(a)
			if d, _, held := w.heldDatum(func(d eav, x *attrInfo) bool { return x == a }); held && w.c.oneIn(2) {
				v = d.V // held, though probably by another
			}
			if len(w.lost) > 0 && w.c.oneIn(3) {
				d := pick(w.c, w.lost)
				if x := w.sc.attrs[d.A]; x != nil && x.ID >= sys.FirstUserID {
					e, a, v = d.E, x, d.V
				}
			}
			b.add(w.claim(w.eref(e), a, w.vref(v), true))
			return true
		},
		"reclaim": func(w *world, b *build) bool { // what was given up, by whomever
			if len(w.lost) == 0 {
				return false
			}
			d := pick(w.c, w.lost)
			a := w.sc.attrs[d.A]
			if a == nil || d.A < sys.FirstUserID {
				return false
			}
			if _, held := w.sc.holder[av{d.A, d.V}]; held {
				return false
			}
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && w.c.oneIn(2) {
				e = w.eref(x)
			}
			b.add(w.claim(e, a, w.vref(d.V), false))
			return true
		},
		"replace": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return !a.Many })
			if !ok {
				return false
			}
			v, ok := w.valueFor(a)
			if ok {
				b.add(w.claim(w.eref(d.E), a, w.vref(v), false))
			}
			return ok
		},
		"swap": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique != 0 && !a.Many })
			if !ok {
				return false
			}
			f, _, ok := w.heldDatum(func(x eav, y *attrInfo) bool { return y == a && x.E != d.E })
			if !ok {
				return false
			}
			b.add(w.claim(w.eref(d.E), a, w.vref(f.V), false), w.claim(w.eref(f.E), a, w.vref(d.V), false))
			return true
		},
		"takeover": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique != 0 })
			e, ok2 := w.entity()
			if !ok || !ok2 || e == d.E {
				return false
			}
			give := w.claim(d.E, a, w.vref(d.V), true)
			if !a.Many && w.c.oneIn(2) {
				v, ok := w.freeVal(a)
				if !ok {
					return false
				}
				give = w.claim(w.eref(d.E), a, w.vref(v), false)
			}
			take := w.claim(w.eref(e), a, w.vref(d.V), false)
			if w.c.oneIn(6) {
				take.E = types.TxnID{}
			}
			switch w.c.IntN(3) {
			case 0: // over two requests
				b.add(give)
			case 1:
				b.add(give, take)
			case 2:
				b.add(take, give)
			}
			return true
		},
		"unify": func(w *world, b *build) bool {
			a := w.attrWhere(identity)
			if a == nil {
				return false
			}
			v, ok := w.freeVal(a)
			d, _, held := w.heldDatum(func(d eav, x *attrInfo) bool { return x == a })
			if held = held && w.c.oneIn(2); held {
				v, ok = d.V, true
			}
			if !ok {
				return false
			}
			t, u := b.temp(), b.temp()
			var more []types.Claim
			if !held && w.c.oneIn(5) { // and the transaction
				more = append(more, w.claim(types.TxnID{}, a, w.vref(v), false))
			}
			for _, x := range []types.TempID{t, u} {
				if p := w.attrWhere(func(p *attrInfo) bool { return p.Unique == 0 && p.Many }); p != nil && w.c.oneIn(2) {
					more = append(more, w.claim(x, p, w.vref(w.someVal(p)), false))
				}
			}
			if p := w.attrWhere(func(p *attrInfo) bool { return p.K == kRef && p.Unique == 0 && p.Many }); p != nil && w.c.oneIn(2) {
				z := b.temp()
				more = append(more, w.claim(z, p, t, false), w.claim(z, p, u, false))
			}
			// A third which is the same by another identity.
			if a2 := w.attrWhere(func(x *attrInfo) bool { return x.Unique == sys.AttrUniqueIdentity && x != a }); a2 != nil && w.c.oneIn(2) {
				if v2, ok := w.freeVal(a2); ok {
					s := b.temp()
					more = append(more, w.claim(s, a2, w.vref(v2), false), w.claim(u, a2, w.vref(v2), false))
				}
			}
			more = append(more, w.claim(t, a, w.vref(v), false), w.claim(u, a, w.vref(v), false))
			w.c.Shuffle(len(more), func(i, j int) { more[i], more[j] = more[j], more[i] })
			b.add(more...)
			return true
		},
		"heldtemp": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique == sys.AttrUniqueIdentity })
			if !ok {
				return false
			}
			t := b.temp()
			cs := []types.Claim{w.claim(t, a, w.vref(d.V), false)}
			for range 1 + w.c.IntN(2) {
				p := w.anyAttr(func(x *attrInfo) bool { return x != a })
				if p == nil {
					break
				}
				v, ok := w.valueFor(p)
				if !ok {
					break
				}
				cs = append(cs, w.claim(t, p, w.vref(v), w.c.oneIn(8)))
				if p.K == kRef && p.Unique == 0 && w.c.oneIn(3) {
					cs[len(cs)-1].V = b.temp()
				}
				if !p.Many {
					break
				}
			}
			w.c.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			b.add(cs...)
			return true
		},
		"temprefs": func(w *world, b *build) bool {
			p := w.attrWhere(func(p *attrInfo) bool { return p.K == kRef && p.Unique == 0 })
			if p == nil {
				return false
			}
			ts := []types.TempID{b.temp(), b.temp()}
			if w.c.oneIn(2) {
				ts = append(ts, b.temp())
			}
			var cs []types.Claim
			for i, t := range ts {
				cs = append(cs, w.claim(t, p, ts[(i+1)%len(ts)], false))
				if a := w.anyAttr(func(x *attrInfo) bool { return x != p }); a != nil && w.c.oneIn(2) {
					if v, ok := w.valueFor(a); ok {
						cs = append(cs, w.claim(t, a, w.vref(v), false))
					}
				}
			}
			if e, ok := w.entity(); ok && w.c.oneIn(2) {
				cs = append(cs, w.claim(w.eref(e), p, ts[0], false))
			}
			w.c.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			if w.c.oneIn(3) {
				cs = cs[:1+w.c.IntN(len(cs))]
			}
			b.add(cs...)
			return true
		},
		"txn": func(w *world, b *build) bool {
			a := w.anyAttr(nil)
			if a == nil {
				return false
			}
			v, ok := w.valueFor(a)
			if ok {
				b.add(w.claim(types.TxnID{}, a, w.vref(v), w.c.oneIn(10)))
			}
			return ok
		},
		"many": func(w *world, b *build) bool {
			a := w.attrWhere(func(a *attrInfo) bool { return a.Many })
			if a == nil {
				return false
			}
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && w.c.oneIn(3) {
				e = w.eref(x)
			}
			for range 2 + w.c.IntN(5) {
				if v, ok := w.valueFor(a); ok {
					b.add(w.claim(e, a, w.vref(v), false))
				}
			}
			return true
		},
		"duplicate": func(w *world, b *build) bool {
			if len(b.claims) == 0 {
				return false
			}
			cl := pick(w.c, b.claims)
			b.add(cl)
			return true
		},
		"retractentity": func(w *world, b *build) bool {
			e, ok := w.entity()
			if !ok {
				return false
			}
			cs := map[types.IDRef]types.Void{}
			for range 1 + w.c.IntN(3) {
				r := w.idref(e)
				if hashable(r) {
					cs[r] = types.Void{}
				}
			}
			if len(cs) == 0 {
				cs[e] = types.Void{}
			}
			b.retractions = append(b.retractions, types.Retraction{Constraints: cs})
			return true
		},
		"declare": func(w *world, b *build) bool {
			c := w.c
			w.declared++
			k := pick(c, allKinds)
			card := pick(c, []types.ID{0, sys.AttrCardinalityOne, sys.AttrCardinalityMany})
			uniq := pick(c, []types.ID{0, 0, sys.AttrUniqueIdentity, sys.AttrUniqueValue})
			ident := fmt.Sprintf("new/%d", w.declared)
			if c.oneIn(8) {
				ident = pick(c, w.names[:6])
				if w.sc.idents[ident] != 0 {
					return false
				}
			}
			if a := w.attrWhere(nil); a != nil && c.oneIn(8) {
				ident = akin(c, a.Ident)
				if w.sc.idents[ident] != 0 || strings.HasPrefix(ident, "sys/") {
					return false
				}
			}
			b.add(w.vary(declClaims(b.temp(), ident, k.typeID(), card, uniq))...)
			return true
		},
		"redeclare": func(w *world, b *build) bool {
			a := w.attrWhere(nil)
			if a == nil {
				return false
			}
			var e types.ERef = b.temp()
			if w.c.oneIn(2) {
				e = w.eref(a.ID)
			}
			cs := declClaims(e, a.Ident, a.K.typeID(), a.Card, a.Unique)
			if _, temp := e.(types.TempID); !temp && w.c.oneIn(2) {
				cs = cs[w.c.IntN(len(cs)):]
			} else if temp && w.c.oneIn(3) && len(cs) > 2 {
				cs = cs[:2+w.c.IntN(len(cs)-1)]
			}
			b.add(w.vary(cs)...)
			return true
		},
		"touchattr": func(w *world, b *build) bool { // attributes are entities
			a, p := w.attrWhere(nil), w.attrWhere(nil)
			if a == nil {
				return false
			}
			v, ok := w.valueFor(p)
			if ok {
				b.add(w.claim(w.eref(a.ID), p, w.vref(v), false))
			}
			return ok
		},
		"name": func(w *world, b *build) bool {
			name := pick(w.c, w.names)
			if w.sc.idents[name] != 0 {
				return false
			}
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && w.c.oneIn(2) {
				e = w.eref(x)
			}
			if w.c.oneIn(6) {
				e = types.TxnID{}
			}
			b.add(w.claim(e, w.sc.attrs[sys.DbIdent], types.String(name), false))
			return true
		},
		"rename": func(w *world, b *build) bool {
			ds := w.named()
			name := pick(w.c, w.names)
			if len(ds) == 0 || w.sc.idents[name] != 0 {
				return false
			}
			d := pick(w.c, ds)
			b.add(w.claim(w.eref(d.E), w.sc.attrs[sys.DbIdent], types.String(name), false))
			return true
		},
		"unname": func(w *world, b *build) bool {
			ds := w.named()
			if len(ds) == 0 {
				return false
			}
			d := pick(w.c, ds)
			e := d.E
			v := d.V.S
			if w.c.oneIn(3) { // a name it does not hold
				if x, ok := w.entity(); ok {
					e = x
				}
			}
			if w.c.oneIn(4) {
				v = pick(w.c, w.names)
			}
			b.add(w.claim(w.eref(e), w.sc.attrs[sys.DbIdent], types.String(v), true))
			return true
		},
		"stealname": func(w *world, b *build) bool {
			ds := w.named()
			e, ok := w.entity()
			if len(ds) == 0 || !ok {
				return false
			}
			d := pick(w.c, ds)
			ident := w.sc.attrs[sys.DbIdent]
			cs := []types.Claim{w.claim(w.eref(e), ident, types.String(d.V.S), false)}
			if w.c.oneIn(6) {
				cs[0].E = types.TxnID{}
			}
			switch w.c.IntN(3) {
			case 0:
				cs = append(cs, w.claim(d.E, ident, types.String(d.V.S), true))
			case 1:
				cs = append(cs, w.claim(d.E, ident, types.String(pick(w.c, w.names)), false))
			}
			w.c.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			b.add(cs...)
			return true
		},

		// What must be rejected.

		"akinref": akinRef,

		"conflicttemp": func(w *world, b *build) bool {
			d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique == sys.AttrUniqueIdentity })
			if !ok {
				return false
			}
			f, a2, ok := w.heldDatum(func(x eav, y *attrInfo) bool {
				return y.Unique == sys.AttrUniqueIdentity && x.E != d.E && (y != a || a.Many)
			})
			if !ok {
				return false
			}
			t := b.temp()
			if w.c.oneIn(2) {
				b.add(w.claim(t, a, w.vref(d.V), false), w.claim(t, a2, w.vref(f.V), false))
				return true
			}
			// By way of another tempid.
			x := w.attrWhere(func(x *attrInfo) bool { return x.Unique == sys.AttrUniqueIdentity && x != a && x != a2 })
			if x == nil {
				return false
			}
			v, ok := w.freeVal(x)
			if !ok {
				return false
			}
			u := b.temp()
			cs := []types.Claim{w.claim(t, a, w.vref(d.V), false), w.claim(u, a2, w.vref(f.V), false), w.claim(t, x, w.vref(v), false), w.claim(u, x, w.vref(v), false)}
			w.c.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			b.add(cs...)
			return true
		},
		"samecard": func(w *world, b *build) bool {
			a := w.attrWhere(single)
			if a == nil {
				return false
			}
			v, ok := w.valueFor(a)
			u, ok2 := w.valueFor(a)
			if d, _, held := w.heldDatum(func(d eav, x *attrInfo) bool { return x == a }); held && w.c.oneIn(2) && a.Unique == 0 {
				u = d.V
			}
			if !ok || !ok2 || v == u {
				return false
			}
			var e1, e2 types.ERef = b.temp(), nil
			e2 = e1
			if x, ok := w.entity(); ok && w.c.oneIn(2) {
				e1, e2 = w.eref(x), w.eref(x)
			} else if w.c.oneIn(4) {
				e1, e2 = types.TxnID{}, types.TxnID{}
			} else if id := w.attrWhere(identity); id != nil && w.c.oneIn(2) && id != a {
				// Two tempids which prove to be one.
				x, ok := w.freeVal(id)
				if ok {
					e2 = b.temp()
					b.add(w.claim(e1, id, w.vref(x), false), w.claim(e2, id, w.vref(x), false))
				}
			}
			b.add(w.claim(e1, a, w.vref(v), false))
			b.add(w.claim(e2, a, w.vref(u), false))
			return true
		},
		"collide": func(w *world, b *build) bool { // an entity claims what another holds, or two the same
			a := w.attrWhere(unique)
			e, ok := w.entity()
			if a == nil || !ok {
				return false
			}
			if d, x, held := w.heldDatum(func(d eav, x *attrInfo) bool { return x.Unique != 0 && d.E != e }); held && w.c.oneIn(2) {
				var by types.ERef = w.eref(e)
				if w.c.oneIn(5) {
					by = types.TxnID{}
				}
				b.add(w.claim(by, x, w.vref(d.V), false))
				return true
			}
			v, ok := w.freeVal(a)
			f, ok2 := w.entity()
			if !ok || !ok2 || e == f {
				return false
			}
			var other types.ERef = w.eref(f)
			switch {
			case w.c.oneIn(4):
				other = types.TxnID{}
			case a.Unique == sys.AttrUniqueValue && w.c.oneIn(2):
				other = b.temp()
			}
			b.add(w.claim(w.eref(e), a, w.vref(v), false), w.claim(other, a, w.vref(v), false))
			if a.K == kRef && w.c.oneIn(2) {
				// The value is a tempid, or two which prove to be one.
				n := len(b.claims)
				t, u := b.temp(), types.TempID("")
				u = t
				if id := w.attrWhere(func(x *attrInfo) bool { return identity(x) && x != a }); id != nil && w.c.oneIn(2) {
					x, ok := w.freeVal(id)
					if d, _, held := w.heldDatum(func(d eav, y *attrInfo) bool { return y == id }); held && w.c.oneIn(2) {
						x, ok = d.V, true
					}
					if ok {
						u = b.temp()
						b.add(w.claim(t, id, w.vref(x), false), w.claim(u, id, w.vref(x), false))
					}
				}
				b.claims[n-2].V, b.claims[n-1].V = t, u
			}
			return true
		},
		"valuetemp": func(w *world, b *build) bool {
			if d, a, held := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique == sys.AttrUniqueValue }); held && w.c.oneIn(2) {
				b.add(w.claim(b.temp(), a, w.vref(d.V), false))
				return true
			}
			a := w.attrWhere(func(a *attrInfo) bool { return a.Unique == sys.AttrUniqueValue })
			if a == nil {
				return false
			}
			v, ok := w.freeVal(a)
			if ok {
				b.add(w.claim(b.temp(), a, w.vref(v), false), w.claim(b.temp(), a, w.vref(v), false))
			}
			return ok
		},
		"alterattr": func(w *world, b *build) bool {
			c := w.c
			a := w.attrWhere(nil)
			if a == nil {
				return false
			}
			var e types.ERef = w.eref(a.ID)
			temp := c.oneIn(3)
			if temp {
				t := b.temp()
				b.add(w.claim(t, w.sc.attrs[sys.DbIdent], types.String(a.Ident), false))
				e = t
			}
			at := func(id types.ID) *attrInfo { return w.sc.attrs[id] }
			other := func(ids ...types.ID) types.ID { return pick(c, ids) }
			switch c.IntN(9) {
			case 0:
				b.add(w.claim(e, at(sys.AttrType), w.vref(vref(pick(c, allKinds).typeID())), false))
			case 1:
				b.add(w.claim(e, at(sys.AttrCardinality), w.vref(vref(other(sys.AttrCardinalityOne, sys.AttrCardinalityMany))), false))
			case 2:
				b.add(w.claim(e, at(sys.AttrUnique), w.vref(vref(other(sys.AttrUniqueIdentity, sys.AttrUniqueValue))), false))
			case 3:
				b.add(w.claim(w.eref(a.ID), at(sys.DbIdent), types.String(pick(c, w.names)), false))
			case 4:
				b.add(w.claim(e, at(sys.DbIdent), types.String(a.Ident), true))
			case 5:
				b.add(w.claim(e, at(sys.AttrType), w.vref(vref(a.K.typeID())), true))
			case 6:
				if a.Card == 0 {
					return false
				}
				b.add(w.claim(e, at(sys.AttrCardinality), w.vref(vref(a.Card)), true))
			case 7:
				if a.Unique == 0 {
					return false
				}
				b.add(w.claim(e, at(sys.AttrUnique), w.vref(vref(a.Unique)), true))
			case 8:
				b.retractions = append(b.retractions, types.Retraction{Constraints: map[types.IDRef]types.Void{w.idref(a.ID): {}}})
			}
			return true
		},
		"badattr": func(w *world, b *build) bool {
			c := w.c
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && c.oneIn(4) {
				e = w.eref(x)
			}
			w.declared++
			ident := fmt.Sprintf("bad/%d", w.declared)
			good := declClaims(e, ident, pick(c, allKinds).typeID(), pick(c, []types.ID{0, sys.AttrCardinalityMany}), pick(c, []types.ID{0, sys.AttrUniqueIdentity}))
			bogus := types.ID(1 + c.IntN(25))
			if as := w.attrs(); len(as) > 0 && c.oneIn(3) {
				bogus = pick(c, as).ID
			}
			switch c.IntN(8) {
			case 6, 7: // the ident is given up at once
				good = append(good, types.Claim{E: e, A: sys.DbIdent, V: types.String(ident), Retract: true})
				b.add(w.vary(good)...)
				return true
			case 0:
				good = append(good[:1], good[2:]...) // no type
				if len(good) == 1 {
					good = append(good, types.Claim{E: e, A: sys.AttrCardinality, V: sys.AttrCardinalityMany})
				}
			case 1:
				good = good[1:] // no ident
			case 2:
				good[1].V = bogus
			case 3:
				good = append(declClaims(e, ident, pick(c, allKinds).typeID(), bogus, pick(c, []types.ID{0, 0, sys.AttrUniqueIdentity, sys.AttrUniqueValue})))
			case 4:
				good = append(declClaims(e, ident, pick(c, allKinds).typeID(), pick(c, []types.ID{0, sys.AttrCardinalityOne, sys.AttrCardinalityMany}), bogus))
			case 5:
				good[0].V = types.String("sys/" + ident)
			}
			b.add(w.vary(good)...)
			return true
		},
		"system": func(w *world, b *build) bool {
			c := w.c
			var sysIDs []types.ID
			for e := range systemIdents {
				sysIDs = append(sysIDs, e)
			}
			sysIDs = append(sysIDs, 5)
			sort.Slice(sysIDs, func(i, j int) bool { return sysIDs[i] < sysIDs[j] })
			s := pick(c, sysIDs)
			switch c.IntN(7) {
			case 0: // a system ident
				var e types.ERef = b.temp()
				if x, ok := w.entity(); ok && c.oneIn(2) {
					e = w.eref(x)
				}
				name := pick(c, []string{"sys/", "sys/foo", "sys/db/ident", "sys/attr/type/int", "sys/x/y"})
				b.add(w.claim(e, w.sc.attrs[sys.DbIdent], types.String(name), false))
			case 1:
				a := w.attrWhere(nil)
				if a == nil {
					return false
				}
				v, ok := w.valueFor(a)
				if !ok {
					return false
				}
				b.add(w.claim(w.eref(s), a, w.vref(v), c.oneIn(4)))
			case 2: // retract or restate what it holds
				ds := append([]eav{}, w.sc.byE[s]...)
				sort.Slice(ds, func(i, j int) bool { return lessEAV(ds[i], ds[j]) })
				d := pick(c, ds)
				b.add(w.claim(w.eref(d.E), w.sc.attrs[d.A], w.vref(d.V), c.oneIn(2)))
			case 3:
				b.retractions = append(b.retractions, types.Retraction{Constraints: map[types.IDRef]types.Void{w.idref(s): {}}})
			case 4:
				at := pick(c, []types.ID{sys.DbIdent, sys.AttrType, sys.AttrCardinality, sys.AttrUnique, sys.DbRank, sys.TxAt, sys.AttrRefType})
				a := w.sc.attrs[at]
				b.add(w.claim(w.eref(s), a, w.vref(w.someVal(a)), c.oneIn(4)))
			case 5: // by a tempid which turns out to be it
				t := b.temp()
				name, ok := systemIdents[s]
				if !ok {
					return false
				}
				b.add(w.claim(t, w.sc.attrs[sys.DbIdent], types.String(name), false))
				if a := w.attrWhere(nil); a != nil && c.oneIn(2) {
					if v, ok := w.valueFor(a); ok {
						b.add(w.claim(t, a, w.vref(v), false))
					}
				}
			case 6:
				b.add(w.claim(types.ID(20+c.IntN(1000)), w.sc.attrs[sys.DbIdent], types.String("x"), false))
			}
			return true
		},
		"badtype": func(w *world, b *build) bool {
			c := w.c
			a := w.attrWhere(nil)
			if c.oneIn(6) {
				a = w.sc.attrs[pick(c, []types.ID{sys.DbIdent, sys.AttrType, sys.AttrUnique, sys.DbRank})]
			}
			if a == nil {
				return false
			}
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && c.oneIn(2) {
				e = w.eref(x)
			}
			var v types.VRef
			k := pick(c, allKinds)
			switch {
			case c.oneIn(6):
			case k == a.K && k != kRef:
				v = types.TempID("v")
			case k == a.K:
				return false
			default:
				v = w.vref(w.poolVal(k))
			}
			b.add(w.claim(e, a, v, c.oneIn(4)))
			return true
		},
		"badref": func(w *world, b *build) bool {
			c := w.c
			a := w.attrWhere(nil)
			if a == nil {
				return false
			}
			v, ok := w.valueFor(a)
			if !ok {
				return false
			}
			var e types.ERef = b.temp()
			if x, ok := w.entity(); ok && c.oneIn(2) {
				e = w.eref(x)
			}
			bads := w.badRefs()
			cl := w.claim(e, a, w.vref(v), c.oneIn(5))
			x := pick(c, bads)
			switch c.IntN(3) {
			case 0:
				if x == nil {
					cl.E = nil
				} else {
					cl.E = x.(types.ERef)
				}
			case 1:
				cl.A = x
				if c.oneIn(3) {
					if e, ok := w.entity(); ok {
						cl.A = w.idref(e) // an entity which is no attribute
					}
				}
			case 2:
				r := w.attrWhere(func(a *attrInfo) bool { return a.K == kRef && a.Unique == 0 })
				if r == nil {
					return false
				}
				if _, id := x.(types.ID); id || x == nil {
					return false
				}
				cl = w.claim(e, r, x.(types.VRef), c.oneIn(5))
			}
			b.add(cl)
			return true
		},
		"badretract": func(w *world, b *build) bool {
			c := w.c
			cs := map[types.IDRef]types.Void{}
			e, ok := w.entity()
			if !ok {
				return false
			}
			switch c.IntN(6) {
			case 0:
			case 1:
				f, _ := w.entity()
				if e == f {
					return false
				}
				cs[w.idref(e)] = types.Void{}
				cs[w.idref(f)] = types.Void{}
			case 2: // what may not be retracted, beside what may
				a := w.attrWhere(nil)
				if a == nil || c.oneIn(3) {
					a = w.sc.attrs[pick(c, plainly)]
				}
				cs[w.idref(a.ID)] = types.Void{}
				if c.oneIn(2) {
					b.retractions = append(b.retractions, types.Retraction{Constraints: map[types.IDRef]types.Void{w.idref(e): {}}})
				}
				if c.oneIn(2) {
					b.retractions = append(b.retractions, types.Retraction{Constraints: cs})
					cs = map[types.IDRef]types.Void{w.idref(e): {}}
				}
			default:
				x := pick(c, w.badRefs())
				if _, id := x.(types.ID); id && x.(types.ID) != 0 {
					return false
				}
				if x != nil && !hashable(x) {
					return false
				}
				cs[x] = types.Void{}
				if c.oneIn(2) {
					cs[w.idref(e)] = types.Void{}
				}
			}
			b.retractions = append(b.retractions, types.Retraction{Constraints: cs})
			return true
		},
	}
}

// hashable tells whether a reference may be used as a map key reliably.
func hashable(r types.IDRef) bool {
	for {
		l, ok := r.(types.LookupRef)
		if !ok {
			return true
		}
		if f, ok := l.V.(types.Float); ok && f != f {
			return false
		}
		r = l.A
	}
}

func (w *world) named() []eav {
	return w.datums(func(d eav, a *attrInfo) bool { return d.A == sys.DbIdent })
}

// badRefs are references which name nothing.
func (w *world) badRefs() []types.IDRef {
	c := w.c
	out := []types.IDRef{nil, types.ID(0), w.highest + 1 + types.ID(c.IntN(4)), w.highest + 5000, types.ID(1 << 63), ^types.ID(0), types.Ident("no/such"), types.Ident(""),
		types.LookupRef{}, types.LookupRef{A: types.Ident("no/such"), V: types.String("x")}, types.LookupRef{A: sys.DbIdent, V: types.String("no/such")},
		types.LookupRef{A: sys.DbIdent}, types.LookupRef{A: sys.DbIdent, V: types.Int(1)}, types.LookupRef{A: types.ID(0), V: types.Int(1)},
		types.LookupRef{A: types.LookupRef{A: sys.DbIdent, V: types.String("no/such")}, V: types.Int(1)}}
	near := pick(c, w.names)
	switch c.IntN(3) {
	case 0:
		if a := w.attrWhere(nil); a != nil {
			near = a.Ident
		}
	case 1:
		near = w.sc.attrs[pick(c, plainly)].Ident
	}
	near = akin(c, near)
	out = append(out, types.Ident(near))
	if w.sc.idents[near] == 0 {
		out = append(out, types.LookupRef{A: sys.DbIdent, V: types.String(near)})
	}
	if d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique != 0 && a.K == kStr }); ok {
		s := vstr(akin(c, d.V.S))
		if _, held := w.sc.holder[av{a.ID, s}]; !held {
			out = append(out, types.LookupRef{A: w.aref(a, 0), V: types.String(s.S)})
		}
	}
	keep := out[:0:0]
	for _, r := range out {
		if i, ok := r.(types.Ident); ok && w.sc.idents[string(i)] != 0 {
			continue
		}
		keep = append(keep, r)
	}
	out = keep
	for range 3 {
		if a := w.attrWhere(unique); a != nil {
			if v, ok := w.freeVal(a); ok {
				out = append(out, types.LookupRef{A: w.aref(a, 0), V: w.raw(v).(types.Value)})
			}
			k := pick(c, allKinds)
			if k != a.K {
				out = append(out, types.LookupRef{A: w.aref(a, 0), V: w.poolVal(k).value()})
			}
			out = append(out, types.LookupRef{A: w.aref(a, 0)})
		}
		if d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique != 0 }); ok {
			// The attribute is one that no unique attribute names.
			by := w.attrWhere(func(x *attrInfo) bool { return x.K == kStr })
			if by == nil || c.oneIn(3) {
				by = w.sc.attrs[sys.DbRank]
			}
			if _, held := w.sc.holder[av{by.ID, vstr(a.Ident)}]; by.Unique == 0 || !held {
				out = append(out, types.LookupRef{A: types.LookupRef{A: w.aref(by, 1), V: types.String(a.Ident)}, V: w.raw(d.V).(types.Value)})
			}
		}
		if d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique == 0 }); ok {
			out = append(out, types.LookupRef{A: w.aref(a, 0), V: w.raw(d.V).(types.Value)}) // not unique
		}
	}
	for range 3 {
		if len(w.lost) > 0 {
			d := pick(c, w.lost)
			a := w.sc.attrs[d.A]
			if a != nil && a.Unique != 0 {
				if _, held := w.sc.holder[av{d.A, d.V}]; !held {
					out = append(out, types.LookupRef{A: w.aref(a, 0), V: w.raw(d.V).(types.Value)})
				}
			}
			if d.A == sys.DbIdent && w.sc.idents[d.V.S] == 0 {
				out = append(out, types.Ident(d.V.S))
			}
		}
	}
	return out
}

func (w *world) op() string {
	n := w.c.IntN(w.opsSum)
	for _, o := range w.ops {
		if n < o.n {
			return o.op
		}
		n -= o.n
	}
	return w.ops[0].op
}

// request makes up a request.
func (w *world) request() types.Request {
	c := w.c
	if w.big && c.oneIn(4) {
		return w.bulk()
	}
	b := &build{prefix: "t"}
	if c.oneIn(10) {
		b.prefix = ""
	}
	if c.oneIn(10) {
		b.prefix, b.strange = "strange", 1+c.IntN(len(strangeTemps))
	}
	n := 1
	switch {
	case w.long:
	case c.oneIn(12):
		n = 4 + c.IntN(12)
	case c.oneIn(2):
		n = 1 + c.IntN(4)
	}
	errs := 0
	for done := 0; done < n; {
		tried := false
		for range 20 {
			op := w.op()
			if errOps[op] && (errs > 0 || !c.chance(w.noise)) {
				continue
			}
			tried = true
			if genOps[op](w, b) {
				c.count("op "+op, 1)
				c.feature(op)
				if errOps[op] {
					errs++
				}
				break
			}
		}
		done++
		_ = tried
	}
	if c.oneIn(3) {
		c.Shuffle(len(b.claims), func(i, j int) { b.claims[i], b.claims[j] = b.claims[j], b.claims[i] })
	}
	return types.Request{Claims: b.claims, Retractions: b.retractions}
}

// history drives a world through n writes, calling each after every one of them.
func (w *world) history(n int, each func(wr *written)) {
	if w.big {
		n = (n + 1) / 2
	}
	if w.long {
		n = 300 + w.c.IntN(700)
		w.c.count("long histories", 1)
	}
	for range n {
		if w.c.failed() {
			return
		}
		wr := w.write(w.request())
		w.steps++
		if wr.res.Snapshot == nil {
			return
		}
		if each != nil && !w.c.failed() {
			each(wr)
		}
	}
}
