package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"
	"time"

	"github.com/dball/destructive/internal/types"
	public "github.com/dball/destructive/pkg/database"
)

// Memory which callers pass to, and get from, a database.

func init() {
	register(&check{
		id: "C28", quick: 2400, thorough: 14000,
		rule: "a history in which requests have spare memory beside them, and everything passed and returned is changed afterwards; nontrivial if anything was accepted",
		floors: map[string]int{
			"requests compared": 3000, "requests spoiled": 3000, "structs spoiled": 800, "loads spoiled": 3000, "databases unchanged by changes": 3000, "disjoint loads": 3000, "old responses compared": 2000,
		},
		run: func(c *cse) {
			if c.n%2 == 0 {
				memoryDatums(c)
			} else {
				memoryStructs(c)
			}
		},
	})
}

// spare puts a slice before others in memory.
func spare[T any](c *cse, xs []T, sentinel func() T) (out []T, whole []T) {
	n := len(xs)
	extra := 1 + c.IntN(8)
	whole = make([]T, n+extra)
	copy(whole, xs)
	for i := n; i < len(whole); i++ {
		whole[i] = sentinel()
	}
	return whole[:n], whole
}

// oldTemps are the temp ids of a response, then and now.
type oldTemps struct {
	now, then map[types.TempID]types.ID
}

// oldIDs are the ids of a response, then and now.
type oldIDs struct {
	now, then []uint64
}

func memoryDatums(c *cse) {
	w := datumWorld(c, map[string]int{"restate": 8, "unify": 6}, 0.25)
	if w == nil {
		return
	}
	c.trivial = true
	type held struct {
		snap types.Snapshot
		st   state
	}
	var helds []held
	var olds []oldTemps
	for range 8 + c.IntN(16) {
		if c.failed() {
			return
		}
		req := w.request()
		// The same claims may be passed twice, as one slice.
		again := c.oneIn(6)
		var wholeC []types.Claim
		var wholeR []types.Retraction
		req.Claims, wholeC = spare(c, req.Claims, func() types.Claim {
			return types.Claim{E: types.TempID("sentinel"), A: types.Ident("sentinel"), V: types.Int(c.IntN(1000))}
		})
		req.Retractions, wholeR = spare(c, req.Retractions, func() types.Retraction {
			return types.Retraction{Constraints: map[types.IDRef]types.Void{types.ID(c.Uint64()): {}}}
		})
		whole := func() string {
			return renderReq(types.Request{Claims: wholeC, Retractions: wholeR})
		}
		before := whole()
		wr := w.write(req)
		if c.failed() || wr.res.Snapshot == nil {
			return
		}
		c.count("requests compared", 1)
		for _, old := range olds {
			if !maps.Equal(old.now, old.then) {
				c.violated("the temp ids of a response were %v, and are %v after %s", old.then, old.now, trim(before, 500))
				return
			}
			c.count("old responses compared", 1)
		}
		if after := whole(); after != before {
			c.violated("a write changed memory beside its request, from\n   %s\nto\n   %s", around(before, after), around(after, before))
			return
		}
		// What the snapshot of this write is to show.
		st := w.st.clone()
		if again && wr.accepted {
			w.write(req)
			if after := whole(); after != before {
				c.violated("a second write changed the memory of its request, from\n   %s\nto\n   %s", around(before, after), around(after, before))
			}
			if c.failed() {
				return
			}
		}
		if wr.accepted {
			c.trivial = false
			c.sample = trim(before, 300)
		}
		// Change all there is.
		for i := range wholeC {
			switch c.IntN(4) {
			case 0:
				wholeC[i] = types.Claim{}
			case 1:
				wholeC[i].V = types.String("spoiled")
			case 2:
				wholeC[i].E, wholeC[i].Retract = types.ID(1), !wholeC[i].Retract
			case 3:
				wholeC[i].A = types.ID(7)
			}
		}
		for _, r := range wholeR {
			for k := range r.Constraints {
				delete(r.Constraints, k)
			}
			if r.Constraints != nil {
				r.Constraints[types.ID(3)] = types.Void{}
			}
		}
		// Some of the responses are left alone, and are to stay as they are.
		if c.oneIn(3) {
			olds = append(olds, oldTemps{wr.res.TempIDs, maps.Clone(wr.res.TempIDs)})
		} else {
			for t := range wr.res.TempIDs {
				wr.res.TempIDs[t] = 0
				if c.oneIn(2) {
					delete(wr.res.TempIDs, t)
				}
			}
			if wr.res.TempIDs != nil {
				wr.res.TempIDs["spoiled"] = 99
			}
		}
		c.count("requests spoiled", 1)
		helds = append(helds, held{wr.res.Snapshot, st})
		helds = append(helds, held{w.db.Read(), w.st.clone()})
		look := []held{helds[len(helds)-1], pick(c, helds), pick(c, helds)}
		for _, h := range look {
			var now state
			if !c.guarded("reading a snapshot", func() { now, _ = dump(h.snap) }) {
				return
			}
			if m, e, r := diffStates(h.st, now, true); len(m)+len(e)+len(r) > 0 {
				c.violated("changing the request %s and its response changed a snapshot: lost %s gained %s changed %s", trim(before, 500), renderState(m), renderState(e), renderState(r))
				return
			}
			c.count("databases unchanged by changes", 1)
		}
		cl := w.randomQuery()
		w.query(w.db.Read(), w.st, w.sc, cl, "C28")
	}
}

// spoiler changes everything reachable from a value.
type spoiler struct {
	c    *cse
	done map[pointerKey]bool
	n    int
}

func (s *spoiler) spoil(v reflect.Value) {
	c := s.c
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || s.done[pointerKey{v.Pointer(), v.Type()}] {
			return
		}
		s.done[pointerKey{v.Pointer(), v.Type()}] = true
		s.spoil(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.UnixMilli(424242)))
				s.n++
			}
			return
		}
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				s.spoil(v.Field(i))
			}
		}
		return
	case reflect.Slice:
		if v.IsNil() || s.done[pointerKey{v.Pointer(), v.Type()}] {
			return
		}
		s.done[pointerKey{v.Pointer(), v.Type()}] = true
		// To its capacity.
		v = v.Slice(0, v.Cap())
		for i := range v.Len() {
			s.spoil(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || s.done[pointerKey{v.Pointer(), v.Type()}] {
			return
		}
		s.done[pointerKey{v.Pointer(), v.Type()}] = true
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			if !e.IsValid() {
				continue // the key is no number
			}
			s.spoil(e)
			if e.Kind() == reflect.Struct {
				v.SetMapIndex(k, reflect.Zero(e.Type()))
			}
			if c.oneIn(3) {
				v.SetMapIndex(k, reflect.Value{})
			}
			s.n++
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("spoiled")
			s.n++
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(-424242)
			s.n++
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(1<<60 + 1)
			s.n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			s.n++
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-0.424242)
			s.n++
		}
	}
}

// memoryOf collects the memory a value refers to.
func memoryOf(v reflect.Value, out map[uintptr]string, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return
		}
		if v.Type() == reflect.TypeFor[*time.Location]() {
			return
		}
		if _, ok := out[v.Pointer()]; ok {
			return
		}
		out[v.Pointer()] = v.Type().String()
		memoryOf(v.Elem(), out, depth+1)
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := range v.NumField() {
			memoryOf(v.Field(i), out, depth+1)
		}
	case reflect.Slice:
		if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		if _, ok := out[v.Pointer()]; ok {
			return
		}
		out[v.Pointer()] = v.Type().String()
		for i := range v.Len() {
			memoryOf(v.Index(i), out, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if _, ok := out[v.Pointer()]; ok {
			return
		}
		out[v.Pointer()] = v.Type().String()
		for it := v.MapRange(); it.Next(); {
			memoryOf(it.Value(), out, depth+1)
		}
	}
}

// widen gives every slice within a struct spare memory, and lists all of it.
func widen(c *cse, v reflect.Value, done map[pointerKey]bool, all *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || done[pointerKey{v.Pointer(), v.Type()}] {
			return
		}
		done[pointerKey{v.Pointer(), v.Type()}] = true
		widen(c, v.Elem(), done, all)
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				widen(c, v.Field(i), done, all)
			}
		}
	case reflect.Slice:
		for i := range v.Len() {
			widen(c, v.Index(i), done, all)
		}
		if !v.CanSet() || v.IsNil() {
			return
		}
		n := v.Len()
		wide := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(wide, v)
		for i := n; i < n+3; i++ {
			s := &spoiler{c: c, done: map[pointerKey]bool{}}
			s.spoil(wide.Index(i))
		}
		v.Set(wide.Slice(0, n))
		*all = append(*all, wide)
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if it.Value().Kind() == reflect.Pointer {
				widen(c, it.Value(), done, all)
			}
		}
	}
}

func memoryStructs(c *cse) {
	w := newStructWorld(c)
	if w == nil {
		return
	}
	f := w.fill
	f.reuse, f.update, f.strange, f.share = 0.05, 0.15, 0.01, 0.2
	f.empty, f.colls, f.junk = 0.3, 0.6, c.oneIn(2)
	c.trivial = true
	type held struct {
		snap *public.Snapshot
		x    *expected
		ids  []types.ID
	}
	var helds []held
	var olds []oldIDs
	unspoiled := func(what string) bool {
		for _, old := range olds {
			if !slices.Equal(old.now, old.then) {
				c.violated("the ids of a response were %v, and are %v after %s", old.then, old.now, what)
				return false
			}
			c.count("old responses compared", 1)
		}
		return true
	}
	for range 2 + c.IntN(4) {
		if c.failed() {
			return
		}
		f.begin()
		var req public.Request
		for range 1 + c.IntN(3) {
			req.Assertions = append(req.Assertions, f.root(pick(c, families).typ, 1+c.IntN(3)))
		}
		if len(helds) > 0 && c.oneIn(4) {
			if x := w.retractable([]*family{pick(c, families)}); x != nil {
				req.Retractions = append(req.Retractions, x)
			}
		}
		var lists []reflect.Value
		done := map[pointerKey]bool{}
		for i, x := range req.Assertions {
			v := reflect.ValueOf(x)
			if v.Kind() == reflect.Pointer {
				widen(c, v, done, &lists)
				continue
			}
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			widen(c, p, done, &lists)
			req.Assertions[i] = p.Elem().Interface()
		}
		var wholeA, wholeR []any
		req.Assertions, wholeA = spare(c, req.Assertions, func() any { return fmt.Sprint("sentinel", c.IntN(1000)) })
		req.Retractions, wholeR = spare(c, req.Retractions, func() any { return fmt.Sprint("sentinel", c.IntN(1000)) })
		whole := func() string {
			out := renderGo(wholeA) + renderGo(wholeR)
			for _, s := range lists {
				out += renderGo(s.Interface())
			}
			return out
		}
		before := whole()
		wr := w.write(req)
		if wr == nil || c.failed() || wr.res.Snap == nil {
			continue
		}
		c.count("requests compared", 1)
		if !unspoiled("a later write") {
			return
		}
		if after := whole(); after != before {
			c.violated("a write changed the memory of its request, from\n   %s\nto\n   %s", around(before, after), around(after, before))
			return
		}
		if wr.accepted {
			c.trivial = false
			c.sample = trim(before, 300)
			for _, x := range req.Assertions {
				c.feature(reflect.TypeOf(x).String())
			}
		}
		h := held{wr.res.Snap, w.expected(), w.ids()}
		helds = append(helds, h, held{w.db.Read(), h.x, h.ids})
		// Change the request and its response.
		s := &spoiler{c: c, done: map[pointerKey]bool{}}
		for i, x := range wholeA {
			s.spoil(reflect.ValueOf(x))
			wholeA[i] = nil
		}
		for i, x := range wholeR {
			s.spoil(reflect.ValueOf(x))
			wholeR[i] = knot{}
		}
		for _, x := range lists {
			s.spoil(x)
		}
		if len(wr.res.IDs) > 0 && c.oneIn(3) {
			olds = append(olds, oldIDs{wr.res.IDs, slices.Clone(wr.res.IDs)})
		} else {
			ids := wr.res.IDs[:cap(wr.res.IDs)]
			for i := range ids {
				ids[i] = 77
			}
		}
		if !unspoiled("changing a later response") {
			return
		}
		c.count("structs spoiled", 1)
		st, attrs, ok := w.read(w.db.Read())
		if !ok {
			return
		}
		m, e, _ := diffStates(w.st, st, false)
		m2, e2, _ := diffStates(w.attrs, attrs, false)
		if len(m)+len(e)+len(m2)+len(e2) > 0 {
			c.violated("changing a request and its response changed the database: lost %s %s gained %s %s", w.render(m), w.render(m2), w.render(e), w.render(e2))
			return
		}
		c.count("databases unchanged by changes", 1)
		// Change what loads return.
		for range 10 {
			h := pick(c, helds)
			if len(h.ids) == 0 {
				break
			}
			id := pick(c, h.ids)
			fam := pick(c, families)
			one := w.load(h.snap, h.x, fam, id, 4, "C28")
			if one == nil || c.failed() {
				break
			}
			two := w.load(h.snap, h.x, fam, id, 4, "C28")
			if two == nil || c.failed() {
				break
			}
			a, b := map[uintptr]string{}, map[uintptr]string{}
			memoryOf(reflect.ValueOf(one), a, 0)
			memoryOf(reflect.ValueOf(two), b, 0)
			for p, t := range a {
				if u, ok := b[p]; ok {
					c.violated("two loads of %d as %s share the memory of a %s and a %s", id, fam.typ, t, u)
					return
				}
			}
			c.count("disjoint loads", 1)
			text := renderGo(two)
			(&spoiler{c: c, done: map[pointerKey]bool{}}).spoil(reflect.ValueOf(one))
			c.count("loads spoiled", 1)
			if now := renderGo(two); now != text {
				c.violated("changing one load of %d as %s changed another from %s to %s", id, fam.typ, around(text, now), around(now, text))
				return
			}
			w.load(h.snap, h.x, fam, id, 4, "C28")
		}
	}
}
