package main

import (
	"fmt"
	"maps"
	"reflect"
	"slices"

	public "github.com/dball/destructive/pkg/database"
)

// Graphs, collections and requests of hundreds or thousands of structs, of a few types whose
// meaning is plain enough to be compared directly.

type link struct {
	N    int    `attr:"link/n"`
	Next *link  `attr:"link/next"`
	ID   uint64 `attr:"sys/db/id"`
}

type grove struct {
	ID   uint64  `attr:"sys/db/id"`
	S    string  `attr:"grove/s"`
	Kids []grove `attr:"grove/kids"`
}

type book struct {
	Title string  `attr:"book/title,identity"`
	Pages int     `attr:"book/pages"`
	Price float64 `attr:"book/price"`
}

type shelf struct {
	ID    uint64           `attr:"sys/db/id"`
	Name  string           `attr:"shelf/name,identity"`
	Books map[string]*book `attr:"shelf/books,key=book/title"`
	Pages map[int]book     `attr:"shelf/pages,key=book/pages"`
	Lines []string         `attr:"shelf/lines,value=line/text"`
	Sizes []int            `attr:"shelf/sizes,value=size/n"`
}

func scaleSize(c *cse) int {
	return pick(c, []int{9 + c.IntN(8), 60 + c.IntN(10), 100 + c.IntN(100), 250 + c.IntN(20), 500 + c.IntN(30), 1000 + c.IntN(1000)})
}

func runScale(c *cse, which int) {
	var db public.Database
	if !c.guarded("NewDatabase", func() { db = public.NewDatabase(public.Config{Degree: pick(c, degrees)}) }) {
		return
	}
	c.count("large graphs", 1)
	switch which {
	case 0:
		scaleLinks(c, db)
	case 1:
		scaleTree(c, db)
	case 2:
		scaleShelf(c, db)
	case 3:
		scaleBooks(c, db)
	case 4:
		scaleWeb(c, db)
	}
}

func scaleWrite(c *cse, db public.Database, what string, xs ...any) (res public.Response, ok bool) {
	if !c.guarded("recording "+what, func() { res = db.Write(public.Request{Assertions: xs}) }) {
		return
	}
	if res.Error != nil || len(res.IDs) != len(xs) || res.Snap == nil {
		c.violated("recording %s: error %v, %d ids for %d assertions", what, res.Error, len(res.IDs), len(xs))
		return
	}
	return res, true
}

func scaleFind[T any](c *cse, what string, snap *public.Snapshot, id uint64) (x *T) {
	c.guarded("loading "+what, func() {
		ts, err := public.BuildTypedSnapshot[T](snap)
		if err != nil {
			c.violated("%s: a snapshot typed as %s: %v", what, reflect.TypeFor[T](), err)
			return
		}
		if x = ts.Find(id); x == nil {
			c.violated("%s: entity %d loads as nothing", what, id)
		}
	})
	return
}

// scaleLinks are chains, rings, and rings with a tail, of which any may be the one recorded.
func scaleLinks(c *cse, db public.Database) {
	n := scaleSize(c)
	links := make([]link, n)
	order := c.Perm(n)
	for i := range order {
		links[order[i]].N = i - n/2
		if i > 0 {
			links[order[i-1]].Next = &links[order[i]]
		}
	}
	back := -1
	if !c.oneIn(3) {
		back = c.IntN(n)
		links[order[n-1]].Next = &links[order[back]]
	}
	what := fmt.Sprintf("a chain of %d which goes back to %d", n, back)
	c.feature(what)
	c.log("%s", what)
	roots := []any{&links[order[0]]}
	at := []int{0}
	for range c.IntN(3) {
		k := c.IntN(n)
		roots, at = append(roots, &links[order[k]]), append(at, k)
	}
	res, ok := scaleWrite(c, db, what, roots...)
	if !ok {
		return
	}
	ids := map[int]uint64{} // by N
	for r, id := range res.IDs {
		x := scaleFind[link](c, what, res.Snap, id)
		i := at[r]
		for steps := 0; ; steps++ {
			want := &links[order[i]]
			if x == nil {
				c.violated("%s: the chain ends before %d", what, want.N)
				return
			}
			if steps == 0 && x.ID != id {
				c.violated("%s: root %d loads with id %d", what, id, x.ID)
				return
			}
			if x.N != want.N {
				c.violated("%s: there is %d where there must be %d", what, x.N, want.N)
				return
			}
			if x.ID == 0 || ids[x.N] != 0 && ids[x.N] != x.ID {
				c.violated("%s: %d is entity %d, but was entity %d", what, x.N, x.ID, ids[x.N])
				return
			}
			ids[x.N] = x.ID
			if want.Next == nil {
				if x.Next != nil {
					c.violated("%s: the chain goes on after its end", what)
				}
				break
			}
			if steps > n+2 {
				break
			}
			x = x.Next
			if i++; i == n {
				i = back
			}
		}
		c.count("structs compared at scale", n)
	}
	seen := map[uint64]bool{}
	for _, id := range ids {
		if seen[id] {
			c.violated("%s: two links are both entity %d", what, id)
			return
		}
		seen[id] = true
	}
}

func scaleTree(c *cse, db public.Database) {
	left := scaleSize(c)
	n := 0
	var grow func(t *grove, depth int)
	deep := c.oneIn(3)
	grow = func(t *grove, depth int) {
		n++
		t.S = fmt.Sprint("t", c.IntN(n))
		k := c.IntN(5)
		switch {
		case deep:
			k = 1
		case c.oneIn(5) || depth == 0:
			k = c.IntN(left + 1)
		}
		k = min(k, left)
		left -= k
		for range k {
			t.Kids = append(t.Kids, grove{})
		}
		if depth < 400 {
			for i := range t.Kids {
				grow(&t.Kids[i], depth+1)
			}
		}
	}
	var root grove
	grow(&root, 0)
	what := fmt.Sprintf("a tree of %d", n)
	c.feature(what)
	res, ok := scaleWrite(c, db, what, root)
	if !ok {
		return
	}
	got := scaleFind[grove](c, what, res.Snap, res.IDs[0])
	if got == nil {
		return
	}
	seen := map[uint64]bool{}
	var same func(a, b *grove, path string) bool
	same = func(a, b *grove, path string) bool {
		if a.S != b.S || len(a.Kids) != len(b.Kids) {
			c.violated("%s: at %s %q with %d kids was recorded, but loads as %q with %d", what, trim(path, 200), a.S, len(a.Kids), b.S, len(b.Kids))
			return false
		}
		if b.ID == 0 || seen[b.ID] {
			c.violated("%s: at %s the id is %d, which is not its own", what, trim(path, 200), b.ID)
			return false
		}
		seen[b.ID] = true
		for i := range a.Kids {
			if !same(&a.Kids[i], &b.Kids[i], path+fmt.Sprint("/", i)) {
				return false
			}
		}
		return true
	}
	same(&root, got, "")
	c.count("structs compared at scale", n)
}

func scaleShelf(c *cse, db public.Database) {
	n, m := scaleSize(c), scaleSize(c)
	x := shelf{Name: "s", Books: map[string]*book{}, Pages: map[int]book{}}
	for i := range n {
		b := &book{Title: fmt.Sprint("title", i), Pages: i % 7, Price: float64(-i)}
		x.Books[b.Title] = b
	}
	for i := range m {
		x.Pages[i-m/2] = book{Title: fmt.Sprint("page", i), Pages: i - m/2, Price: float64(i)}
	}
	for range scaleSize(c) {
		x.Lines = append(x.Lines, fmt.Sprint("line", c.IntN(50)))
	}
	for range scaleSize(c) {
		x.Sizes = append(x.Sizes, c.IntN(100)-50)
	}
	what := fmt.Sprintf("a shelf of %d and %d books, %d lines and %d sizes", n, m, len(x.Lines), len(x.Sizes))
	c.feature(what)
	var arg any = x
	if c.oneIn(2) {
		arg = &x
	}
	res, ok := scaleWrite(c, db, what, arg)
	if !ok {
		return
	}
	got := scaleFind[shelf](c, what, res.Snap, res.IDs[0])
	if got == nil {
		return
	}
	want := x
	want.ID = res.IDs[0]
	if !reflect.DeepEqual(&want, got) {
		c.violated("%s loads as another: name %q %q, %d and %d books, %d lines and %d sizes, equal lines %v sizes %v books %v pages %v", what, got.Name, x.Name, len(got.Books), len(got.Pages), len(got.Lines), len(got.Sizes),
			reflect.DeepEqual(got.Lines, x.Lines), reflect.DeepEqual(got.Sizes, x.Sizes), reflect.DeepEqual(got.Books, x.Books), reflect.DeepEqual(got.Pages, x.Pages))
	}
	c.count("structs compared at scale", n+m)
}

type web struct {
	Name  string          `attr:"web/name"`
	N     int             `attr:"web/n"`
	Peers map[string]*web `attr:"web/peers,key=web/name"`
	Next  *web            `attr:"web/next"`
	Other *web            `attr:"web/other"`
	ByN   map[int]*web    `attr:"web/byn,key=web/n"`
	ID    uint64          `attr:"sys/db/id"`
}

// scaleWeb are structs each of which many others point to, by fields and in large maps.
func scaleWeb(c *cse, db public.Database) {
	n := min(scaleSize(c), 300)
	edges, most, often := 0, 4000, 4
	switch {
	case c.oneIn(4):
		n, most = 600+c.IntN(800), 1500 // so that very many are shared
	case c.oneIn(3):
		most, often = 12000, 1 // so that very many maps share each
	}
	nodes := make([]web, n)
	any := func() *web { return &nodes[c.IntN(n)] }
	for i := range nodes {
		nodes[i].Name, nodes[i].N = fmt.Sprint("web", i), i-n/2
	}
	for i := range nodes {
		x := &nodes[i]
		if !c.oneIn(4) {
			x.Next = any()
		}
		if c.oneIn(3) {
			x.Other = any()
		}
		if c.oneIn(often) && edges < most {
			x.Peers = map[string]*web{}
			for range 1 + c.IntN(n) {
				y := any()
				x.Peers[y.Name] = y
			}
			edges += len(x.Peers)
		}
		if c.oneIn(6) && edges < most {
			x.ByN = map[int]*web{}
			for range 1 + c.IntN(min(n, 80)) {
				y := any()
				x.ByN[y.N] = y
			}
			edges += len(x.ByN)
		}
	}
	if nodes[0].Peers == nil {
		nodes[0].Peers = map[string]*web{}
	}
	for i := range nodes {
		if c.oneIn(2) {
			nodes[0].Peers[nodes[i].Name] = &nodes[i]
		}
	}
	if c.oneIn(2) { // a hub which most maps share
		hub := any()
		for i := range nodes {
			if c.oneIn(5) {
				continue
			}
			if nodes[i].Peers == nil {
				nodes[i].Peers = map[string]*web{}
			}
			nodes[i].Peers[hub.Name] = hub
		}
	}
	roots := []*web{&nodes[0]}
	args := []interface{}{&nodes[0]}
	for range c.IntN(3) {
		roots = append(roots, any())
		args = append(args, roots[len(roots)-1])
	}
	what := fmt.Sprintf("a web of %d", n)
	c.feature(fmt.Sprint(what, edges))
	res, ok := scaleWrite(c, db, what, args...)
	if !ok {
		return
	}
	ids := map[*web]uint64{}
	owners := map[uint64]*web{}
	for r, root := range roots {
		got := scaleFind[web](c, what, res.Snap, res.IDs[r])
		if got == nil {
			return
		}
		shown := map[*web]*web{} // of what was loaded to what was recorded
		type step struct {
			a, b *web
			path string
		}
		todo := []step{{root, got, "root"}}
		for len(todo) > 0 {
			s := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			a, b := s.a, s.b
			if (a == nil) != (b == nil) {
				c.violated("%s: %s is nil %v, but loads as nil %v", what, s.path, a == nil, b == nil)
				return
			}
			if a == nil {
				continue
			}
			// A shared struct may load as several, as the root does.
			if was, ok := shown[b]; ok {
				if was != a {
					c.violated("%s: %q at %s loads as a struct which is %q too", what, a.Name, s.path, was.Name)
					return
				}
				continue
			}
			shown[b] = a
			if a.Name != b.Name || a.N != b.N || len(a.Peers) != len(b.Peers) || len(a.ByN) != len(b.ByN) {
				c.violated("%s: at %s %q %d with %d and %d peers loads as %q %d with %d and %d", what, s.path, a.Name, a.N, len(a.Peers), len(a.ByN), b.Name, b.N, len(b.Peers), len(b.ByN))
				return
			}
			if ids[a] == 0 {
				ids[a] = b.ID
			}
			if owners[b.ID] == nil {
				owners[b.ID] = a
			}
			if b.ID == 0 || ids[a] != b.ID || owners[b.ID] != a {
				c.violated("%s: %q at %s loads with id %d, but has %d", what, a.Name, s.path, b.ID, ids[a])
				return
			}
			todo = append(todo, step{a.Next, b.Next, a.Name + ".Next"}, step{a.Other, b.Other, a.Name + ".Other"})
			for k, v := range a.Peers {
				todo = append(todo, step{v, b.Peers[k], fmt.Sprintf("%s.Peers[%s]", a.Name, k)})
			}
			for k, v := range a.ByN {
				todo = append(todo, step{v, b.ByN[k], fmt.Sprintf("%s.ByN[%d]", a.Name, k)})
			}
		}
		c.count("structs compared at scale", len(shown))
	}
}

// scaleBooks are requests of many assertions, which denote the same entities when repeated.
func scaleBooks(c *cse, db public.Database) {
	n := scaleSize(c)
	now := map[string]book{}
	ids := map[string]uint64{}
	for round := range 3 {
		var xs []any
		var titles []string
		for range n {
			t := fmt.Sprint("b", c.IntN(n))
			if _, ok := now[t]; ok && round == 0 {
				continue
			}
			b := book{Title: t, Pages: round*10000 + len(xs), Price: float64(len(xs)) / 3}
			double := false
			for _, u := range titles {
				double = double || u == t
			}
			if double {
				continue
			}
			now[t] = b
			titles = append(titles, t)
			if c.oneIn(2) {
				xs = append(xs, &b)
			} else {
				xs = append(xs, b)
			}
		}
		what := fmt.Sprintf("%d books in round %d", len(xs), round)
		c.feature(what)
		for range c.IntN(3) {
			// One that may not be recorded or retracted, at any place.
			var bad any = struct {
				Title string `attr:"book/title,identity"`
				N     int    `attr:"book/pages"`
				ID    uint64 `attr:"sys/db/id"`
			}{"other", 1, 1 << 40}
			why := "one of an unknown entity"
			switch c.IntN(4) {
			case 0:
				bad, why = (*book)(nil), "a nil book"
			case 1:
				bad, why = (&structWorld{c: c}).malformed()
			}
			insert := func(xs []any) []any {
				k := c.IntN(len(xs) + 1)
				return append(append(append([]any{}, xs[:k]...), bad), xs[k:]...)
			}
			bads := public.Request{Assertions: xs}
			if len(ids) > 0 && why != "one of an unknown entity" && c.oneIn(2) {
				for _, t := range slices.Sorted(maps.Keys(ids)) {
					bads.Retractions = append(bads.Retractions, book{Title: t})
				}
				if c.oneIn(2) {
					bads.Assertions = nil
				}
				bads.Retractions = insert(bads.Retractions)
				why += " retracted"
			} else {
				bads.Assertions = insert(xs)
			}
			var res public.Response
			if !c.guarded("recording "+what, func() { res = db.Write(bads) }) {
				return
			}
			if res.Error == nil {
				c.violated("%s and %s were accepted", what, why)
				return
			}
			if len(res.IDs) != 0 {
				c.violated("%s and %s were rejected, but with ids", what, why)
				return
			}
			c.count("large requests rejected", 1)
			for t, id := range ids {
				if b := scaleFind[book](c, what, res.Snap, id); b == nil || b.Title != t || b.Pages >= round*10000 {
					c.violated("%s were rejected, but %q is now %+v", what, t, b)
					return
				}
			}
		}
		res, ok := scaleWrite(c, db, what, xs...)
		if !ok {
			return
		}
		for i, t := range titles {
			if ids[t] == 0 {
				ids[t] = res.IDs[i]
			}
			if ids[t] != res.IDs[i] {
				c.violated("%s: %q was entity %d but is recorded as %d", what, t, ids[t], res.IDs[i])
				return
			}
		}
		for t, id := range ids {
			b := scaleFind[book](c, what, res.Snap, id)
			if b == nil {
				return
			}
			if *b != now[t] {
				c.violated("%s: %+v was recorded, but entity %d loads as %+v", what, now[t], id, *b)
				return
			}
		}
		c.count("structs compared at scale", len(ids))
	}
	seen := map[uint64]bool{}
	for _, id := range ids {
		if seen[id] {
			c.violated("two books are both entity %d", id)
			return
		}
		seen[id] = true
	}
}
