package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/dball/destructive/internal/types"
)

// confusable is a set of values of a kind, many of them nearly equal to others.
func (w *world) confusable(k kind) (out []val) {
	c := w.c
	seen := map[val]bool{}
	add := func(vs ...val) {
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	switch k {
	case kBool:
		add(vbool(true), vbool(false))
	case kStr:
		if c.oneIn(5) {
			for _, s := range twinned(c) {
				add(vstr(s))
			}
		}
		s := pick(c, strPool)
		add(vstr(akin(c, s+"é/Name")), vstr(s+"é/Name"))
		add(vstr(s), vstr(s+"\x00"), vstr(s+" "), vstr(" "+s), vstr(s+"a"), vstr(strings.ToUpper(s)+"x"), vstr(s+"\xff"), vstr(s+"\xff\xff"))
		b := make([]byte, c.IntN(40))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		add(vstr(string(b)), vstr(string(append(b, 0))))
	case kInt:
		n := pick(c, intPool)
		if c.oneIn(2) {
			n = int64(c.Uint64())
		}
		add(vint(n), vint(n+1), vint(n-1), vint(-n), vint(n^math.MinInt64), vint(int64(int32(n))), vint(int64(math.Float64bits(float64(n)))), vint(n<<1))
	case kFloat:
		f := pick(c, floatPool)
		if c.oneIn(2) {
			f = math.Float64frombits(c.Uint64())
		}
		add(vfloat(f), vfloat(-f), vfloat(math.Nextafter(f, math.Inf(1))), vfloat(math.Nextafter(f, math.Inf(-1))), vfloat(f/2), vfloat(f*2), vfloat(float64(float32(f))), vfloat(math.NaN()), vfloat(0), vfloat(math.Inf(1)), vfloat(math.Inf(-1)))
	case kInst:
		n := pick(c, instPool)
		if c.oneIn(2) {
			n = c.Int64N(1<<45) - 1<<44
		}
		add(vinst(n), vinst(n+1), vinst(n-1), vinst(-n), vinst(n+1000), vinst(n/1000*1000), vinst(n+3600000))
	case kRef:
		for range 6 {
			add(w.poolVal(kRef))
		}
		n := types.ID(c.Uint64())
		add(vref(n), vref(n^1), vref(n^(1<<63)), vref(^types.ID(0)))
	}
	c.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if len(out) > 7 {
		out = out[:7]
	}
	return
}

// notExactly says how a value read differs from that written, if it does.
func notExactly(got types.Value, written types.VRef, v val) string {
	if fmt.Sprintf("%T", got) != fmt.Sprintf("%T", written) {
		return "it has another type"
	}
	if fromValue(got) != v {
		return "it is not equal"
	}
	switch x := got.(type) {
	case types.Inst:
		t := time.Time(x)
		if t.Location() != time.UTC {
			return "it is not in UTC"
		}
		if t.Nanosecond()%1e6 != 0 {
			return "it is finer than a millisecond"
		}
	}
	return ""
}
