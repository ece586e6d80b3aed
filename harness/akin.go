package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/dball/destructive/internal/sys"
	"github.com/dball/destructive/internal/types"
)

// akin is a string nearly like another, which is another all the same.
func akin(c *cse, s string) string {
	mid := len(s) / 2
	flip := func(i int, by byte) string {
		b := []byte(s)
		b[i] ^= by
		return string(b)
	}
	for {
		out := s
		switch c.IntN(22) {
		case 0:
			out = strings.ToUpper(s)
		case 1:
			out = strings.ToLower(s)
		case 2:
			out = s[:mid] + strings.ToUpper(s[mid:])
		case 3:
			out = strings.ToUpper(s[:mid]) + s[mid:]
		case 4:
			out = s + " "
		case 5:
			out = " " + s
		case 6:
			out = s + "/"
		case 7:
			out = "/" + s
		case 8:
			out = strings.Replace(s, "/", "//", 1)
		case 9:
			out = strings.ReplaceAll(s, "/", ".")
		case 10:
			out = s + "\x00"
		case 11:
			out = s + "\n"
		case 12:
			out = s[:mid] + "\u200b" + s[mid:]
		case 13:
			out = s + "\u0301"
		case 14:
			out = s + s
		case 15:
			if len(s) > 0 {
				out = s[:len(s)-1]
			}
		case 16:
			if len(s) > 0 {
				out = s[1:]
			}
		case 17:
			out = s + "0"
		case 18:
			if len(s) > 0 {
				out = flip(len(s)-1, 1)
			}
		case 19:
			if len(s) > 0 {
				out = flip(mid, 0x80)
			}
		case 20:
			if len(s) > 0 {
				out = flip(0, 0x20)
			}
		case 21:
			out = strings.ReplaceAll(s, "/", ":")
		}
		if out != s {
			return out
		}
	}
}

// stems are the beginnings of strings which only their ends tell apart.
var stems = []int{15, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096, 65536}

func stem(c *cse) string {
	n := pick(c, stems)
	if n > 5000 && !c.oneIn(8) {
		n = 1024
	}
	return strings.Repeat("x", n)
}

// twinned are strings of which all are alike up to one place.
func twinned(c *cse) []string {
	s := stem(c)
	b := []byte(s)
	b[len(b)/2] = 'y'
	d := []byte(s)
	d[len(d)-1] = 'y'
	return []string{s, s + "a", s + "b", string(b), string(d), s + "\x00", "y" + s[1:], s + s}
}

// strangeTemps are tempids such as nobody would choose.
var strangeTemps = func() (out []types.TempID) {
	long := strings.Repeat("temp", 70)
	for _, s := range []string{"", "0", " ", "-1", "1", "01", "1 ", "+1", "\x00", "\xff", "t", "T", "é", "e\u0301", "sys/db/ident", "#id(1)", "nil", "tx", "txn", "1048576", "name/0",
		long, long + "1", long + "2", "18446744073709551616"} {
		out = append(out, types.TempID(s))
	}
	return
}()

// strangeNames are names nearly like those there are.
func (w *world) strangeNames() (out []string) {
	c := w.c
	long := strings.Repeat("name/", 60)
	for range 1 + c.IntN(4) {
		s := pick(c, w.names)
		if c.oneIn(2) {
			s = attrIdent(pick(c, allKinds), c.oneIn(2), pick(c, []types.ID{0, 7, 8}))
		}
		if c.oneIn(5) {
			s = long + fmt.Sprint(c.IntN(2))
		}
		if s = akin(c, s); !strings.HasPrefix(s, "sys/") {
			out = append(out, s)
		}
	}
	return
}

// near is a value nearly like another, which is another all the same.
func near(c *cse, v val) val {
	for {
		u := v
		switch v.K {
		case kStr:
			u.S = akin(c, v.S)
		case kFloat:
			f := math.Float64frombits(v.N)
			u = vfloat(pick(c, []float64{-f, math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), float64(float32(f)), math.Trunc(f), math.NaN(), f + 1, 1}))
		case kBool:
			u.N ^= 1
		case kRef:
			u.N = v.N + pick(c, []uint64{1, ^uint64(0), 1 << 32, 1 << 63})
		case kInst:
			u.N = v.N + pick(c, []uint64{1, ^uint64(0), 999, 1000, 3600000, 1 << 32})
		default:
			u.N = pick(c, []uint64{v.N + 1, v.N - 1, -v.N, v.N ^ 1<<63, v.N ^ 1<<32, uint64(int64(float64(int64(v.N))))})
		}
		if u != v {
			return u
		}
	}
}

// akinRef adds a claim or retraction with a reference which is nearly one to an entity.
func akinRef(w *world, b *build) bool {
	c := w.c
	var ref types.IDRef
	attr := false
	switch n := c.IntN(5); n {
	case 0, 1, 2:
		var name string
		if ds := w.named(); n == 0 && len(ds) > 0 {
			name = pick(c, ds).V.S
		} else if a := w.attrWhere(nil); a != nil {
			name, attr = a.Ident, true
		} else {
			return false
		}
		name = akin(c, name)
		if w.sc.idents[name] != 0 {
			return false
		}
		ref = types.Ident(name)
		if c.oneIn(3) {
			ref = types.LookupRef{A: w.aref(w.sc.attrs[sys.DbIdent], 0), V: types.String(name)}
		}
	default:
		d, a, ok := w.heldDatum(func(d eav, a *attrInfo) bool { return a.Unique != 0 })
		if !ok {
			return false
		}
		v := near(c, d.V)
		if _, held := w.sc.holder[av{a.ID, v}]; held {
			return false
		}
		ref = types.LookupRef{A: w.aref(a, 0), V: w.raw(v).(types.Value)}
	}
	if c.oneIn(5) && hashable(ref) {
		b.retractions = append(b.retractions, types.Retraction{Constraints: map[types.IDRef]types.Void{ref: {}}})
		return true
	}
	a := w.anyAttr(nil)
	if a == nil {
		return false
	}
	v, ok := w.valueFor(a)
	if !ok {
		return false
	}
	var e types.ERef = b.temp()
	if x, ok := w.entity(); ok && c.oneIn(2) {
		e = w.eref(x)
	}
	cl := w.claim(e, a, w.vref(v), c.oneIn(4))
	r := w.attrWhere(func(a *attrInfo) bool { return a.K == kRef && a.Unique == 0 })
	switch {
	case attr && c.oneIn(2):
		cl.A = ref
	case r != nil && c.oneIn(2):
		cl = w.claim(e, r, ref.(types.VRef), c.oneIn(4))
	default:
		cl.E = ref.(types.ERef)
	}
	b.add(cl)
	return true
}
