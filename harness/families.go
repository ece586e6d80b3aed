// Code generated by tools/genfamilies.py. DO NOT EDIT.

package main

import "time"

type (
	myString string
	myInt    int
	myBool   bool
	myFloat  float64
	myID     uint64
)

// probe has every attribute of the universe.
type probe struct {
	Str0  *string    `attr:"u/str/0"`
	Str1  *string    `attr:"u/str/1"`
	Str2  *string    `attr:"u/str/2"`
	Int0  *int       `attr:"u/int/0"`
	Int1  *int       `attr:"u/int/1"`
	Int2  *int       `attr:"u/int/2"`
	Bool0 *bool      `attr:"u/bool/0"`
	Bool1 *bool      `attr:"u/bool/1"`
	Bool2 *bool      `attr:"u/bool/2"`
	Flo0  *float64   `attr:"u/float/0"`
	Flo1  *float64   `attr:"u/float/1"`
	Flo2  *float64   `attr:"u/float/2"`
	Ins0  *time.Time `attr:"u/inst/0"`
	Ins1  *time.Time `attr:"u/inst/1"`
	Ins2  *time.Time `attr:"u/inst/2"`

	StrI *string    `attr:"u/str/identity"`
	IntI *int       `attr:"u/int/identity"`
	FloI *float64   `attr:"u/float/identity"`
	InsI *time.Time `attr:"u/inst/identity"`
	StrU *string    `attr:"u/str/unique"`
	IntU *int       `attr:"u/int/unique"`
	FloU *float64   `attr:"u/float/unique"`
	InsU *time.Time `attr:"u/inst/unique"`
	BooI *bool      `attr:"u/bool/identity"`
	BooU *bool      `attr:"u/bool/unique"`

	Ref0 map[uint64]*lite `attr:"u/ref/0"`
	Ref1 map[uint64]*lite `attr:"u/ref/1"`
	Ref2 map[uint64]*lite `attr:"u/ref/2"`
	Ref3 map[uint64]*lite `attr:"u/ref/3"`
	Sli0 map[uint64]*lite `attr:"u/slice/0"`
	Sli1 map[uint64]*lite `attr:"u/slice/1"`
	Sli2 map[uint64]*lite `attr:"u/slice/2"`
	MapS map[uint64]*lite `attr:"u/map/str"`
	MapI map[uint64]*lite `attr:"u/map/int"`
	MapB map[uint64]*lite `attr:"u/map/bool"`
	MapF map[uint64]*lite `attr:"u/map/float"`
	MapT map[uint64]*lite `attr:"u/map/inst"`
	LisS map[uint64]*lite `attr:"u/list/str"`
	LisI map[uint64]*lite `attr:"u/list/int"`
	LisB map[uint64]*lite `attr:"u/list/bool"`
	LisF map[uint64]*lite `attr:"u/list/float"`
	LisT map[uint64]*lite `attr:"u/list/inst"`

	ItmS *string    `attr:"u/item/str"`
	ItmI *int       `attr:"u/item/int"`
	ItmB *bool      `attr:"u/item/bool"`
	ItmF *float64   `attr:"u/item/float"`
	ItmT *time.Time `attr:"u/item/inst"`
	Rank *int       `attr:"sys/db/rank"`

	Ident *string          `attr:"sys/db/ident"`
	Type  map[uint64]*lite `attr:"sys/attr/type"`
	Card  map[uint64]*lite `attr:"sys/attr/cardinality"`
	Uniq  map[uint64]*lite `attr:"sys/attr/unique"`

	X0   *string          `attr:"U/str/0"`
	X1   *string          `attr:"u/Str/0"`
	X2   *string          `attr:"u/str/0 "`
	X3   *string          `attr:" u/str/0"`
	X4   *string          `attr:"u/str/00"`
	X5   *string          `attr:"u/str/0/"`
	X6   *string          `attr:"u//str/0"`
	X7   *string          `attr:"/u/str/0"`
	X8   *string          `attr:"u.str.0/"`
	X9   *string          `attr:"u/sтr/0"`
	X10  *string          `attr:"u/str/é"`
	X11  *string          `attr:"u/str/é"`
	X12  *string          `attr:"sysx/str/0"`
	X13  *string          `attr:"SYS/db/ident"`
	X14  *string          `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	X15  *string          `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/1"`
	X16  *int             `attr:"u/INT/0"`
	X17  *int             `attr:"u/int/0x"`
	X18  *float64         `attr:"u/int/00"`
	X19  *int             `attr:"u/float"`
	X20  *string          `attr:"u/Int/1"`
	X21  *string          `attr:"v/str/0"`
	X22  *int             `attr:"v/int/0"`
	X23  *bool            `attr:"v/bool/0"`
	X24  *float64         `attr:"v/float/0"`
	X25  *time.Time       `attr:"v/inst/0"`
	X26  *string          `attr:"v/str/1"`
	X27  *int             `attr:"v/int/1"`
	X28  *bool            `attr:"v/bool/1"`
	X29  *float64         `attr:"v/float/1"`
	X30  *time.Time       `attr:"v/inst/1"`
	X31  *string          `attr:"v/str/2"`
	X32  *int             `attr:"v/int/2"`
	X33  *bool            `attr:"v/bool/2"`
	X34  *float64         `attr:"v/float/2"`
	X35  *time.Time       `attr:"v/inst/2"`
	X36  *string          `attr:"v/str/3"`
	X37  *int             `attr:"v/int/3"`
	X38  *bool            `attr:"v/bool/3"`
	X39  *float64         `attr:"v/float/3"`
	X40  *time.Time       `attr:"v/inst/3"`
	X41  *string          `attr:"v/str/4"`
	X42  *int             `attr:"v/int/4"`
	X43  *bool            `attr:"v/bool/4"`
	X44  *float64         `attr:"v/float/4"`
	X45  *time.Time       `attr:"v/inst/4"`
	X46  *string          `attr:"v/str/5"`
	X47  *int             `attr:"v/int/5"`
	X48  *bool            `attr:"v/bool/5"`
	X49  *float64         `attr:"v/float/5"`
	X50  *time.Time       `attr:"v/inst/5"`
	X51  *string          `attr:"v/str/6"`
	X52  *int             `attr:"v/int/6"`
	X53  *bool            `attr:"v/bool/6"`
	X54  *float64         `attr:"v/float/6"`
	X55  *time.Time       `attr:"v/inst/6"`
	X56  *string          `attr:"v/str/7"`
	X57  *int             `attr:"v/int/7"`
	X58  *bool            `attr:"v/bool/7"`
	X59  *float64         `attr:"v/float/7"`
	X60  *time.Time       `attr:"v/inst/7"`
	X61  *string          `attr:"v/str/8"`
	X62  *int             `attr:"v/int/8"`
	X63  *bool            `attr:"v/bool/8"`
	X64  *float64         `attr:"v/float/8"`
	X65  *time.Time       `attr:"v/inst/8"`
	X66  *string          `attr:"v/str/9"`
	X67  *int             `attr:"v/int/9"`
	X68  *bool            `attr:"v/bool/9"`
	X69  *float64         `attr:"v/float/9"`
	X70  *time.Time       `attr:"v/inst/9"`
	X71  *string          `attr:"v/str/10"`
	X72  *int             `attr:"v/int/10"`
	X73  *bool            `attr:"v/bool/10"`
	X74  *float64         `attr:"v/float/10"`
	X75  *time.Time       `attr:"v/inst/10"`
	X76  *string          `attr:"v/str/11"`
	X77  *int             `attr:"v/int/11"`
	X78  *bool            `attr:"v/bool/11"`
	X79  *float64         `attr:"v/float/11"`
	X80  *time.Time       `attr:"v/inst/11"`
	X81  *string          `attr:"v/str/12"`
	X82  *int             `attr:"v/int/12"`
	X83  *bool            `attr:"v/bool/12"`
	X84  *float64         `attr:"v/float/12"`
	X85  *time.Time       `attr:"v/inst/12"`
	X86  *string          `attr:"v/str/13"`
	X87  *int             `attr:"v/int/13"`
	X88  *bool            `attr:"v/bool/13"`
	X89  *float64         `attr:"v/float/13"`
	X90  *time.Time       `attr:"v/inst/13"`
	X91  *string          `attr:"v/str/14"`
	X92  *int             `attr:"v/int/14"`
	X93  *bool            `attr:"v/bool/14"`
	X94  *float64         `attr:"v/float/14"`
	X95  *time.Time       `attr:"v/inst/14"`
	X96  *string          `attr:"v/str/15"`
	X97  *int             `attr:"v/int/15"`
	X98  *bool            `attr:"v/bool/15"`
	X99  *float64         `attr:"v/float/15"`
	X100 *time.Time       `attr:"v/inst/15"`
	X101 *string          `attr:"v/str/16"`
	X102 *int             `attr:"v/int/16"`
	X103 *bool            `attr:"v/bool/16"`
	X104 *float64         `attr:"v/float/16"`
	X105 *time.Time       `attr:"v/inst/16"`
	X106 *string          `attr:"v/str/17"`
	X107 *int             `attr:"v/int/17"`
	X108 *bool            `attr:"v/bool/17"`
	X109 *float64         `attr:"v/float/17"`
	X110 *time.Time       `attr:"v/inst/17"`
	X111 *string          `attr:"v/str/18"`
	X112 *int             `attr:"v/int/18"`
	X113 *bool            `attr:"v/bool/18"`
	X114 *float64         `attr:"v/float/18"`
	X115 *time.Time       `attr:"v/inst/18"`
	X116 *string          `attr:"v/str/19"`
	X117 *int             `attr:"v/int/19"`
	X118 *bool            `attr:"v/bool/19"`
	X119 *float64         `attr:"v/float/19"`
	X120 *time.Time       `attr:"v/inst/19"`
	X121 *string          `attr:"v/str/20"`
	X122 *int             `attr:"v/int/20"`
	X123 *bool            `attr:"v/bool/20"`
	X124 *float64         `attr:"v/float/20"`
	X125 *time.Time       `attr:"v/inst/20"`
	X126 *string          `attr:"v/str/21"`
	X127 *int             `attr:"v/int/21"`
	X128 *bool            `attr:"v/bool/21"`
	X129 *float64         `attr:"v/float/21"`
	X130 *time.Time       `attr:"v/inst/21"`
	X131 *string          `attr:"v/str/22"`
	X132 *int             `attr:"v/int/22"`
	X133 *bool            `attr:"v/bool/22"`
	X134 *float64         `attr:"v/float/22"`
	X135 *time.Time       `attr:"v/inst/22"`
	X136 *string          `attr:"v/str/23"`
	X137 *int             `attr:"v/int/23"`
	X138 *bool            `attr:"v/bool/23"`
	X139 *float64         `attr:"v/float/23"`
	X140 *time.Time       `attr:"v/inst/23"`
	X141 *string          `attr:"v/str/24"`
	X142 *int             `attr:"v/int/24"`
	X143 *bool            `attr:"v/bool/24"`
	X144 *float64         `attr:"v/float/24"`
	X145 *time.Time       `attr:"v/inst/24"`
	Y0   map[uint64]*lite `attr:"v/ref/0"`
	Y1   map[uint64]*lite `attr:"v/ref/1"`
	Y2   map[uint64]*lite `attr:"v/ref/2"`
	Y3   map[uint64]*lite `attr:"v/ref/3"`
	Y4   map[uint64]*lite `attr:"v/ref/4"`
}

type g0 struct {
	F0      []g0     `attr:"u/slice/2"`
	F1      myString `attr:"u/str/0"`
	F2      *g0      `attr:"u/ref/2"`
	hidden0 int
	hidden1 map[string]struct{}
	F5      []int `attr:"u/list/int,value=u/item/int"`
	F6      []g0  `attr:"u/slice/0"`
}

type g1 struct {
	F0    map[int]g1 `attr:"u/map/int,key=u/int/0"`
	F1    *bool      `attr:"u/bool/0"`
	F2    []g0       `attr:"u/slice/2"`
	Junk0 any
	F4    []time.Time `attr:"u/list/inst,value=u/item/inst"`
	F5    float64     `attr:"u/float/2"`
	F6    g0          `attr:"u/ref/2"`
	F7    bool        `attr:"u/bool/1"`
	F8    int         `attr:"u/int/0"`
	F9    *string     `attr:"u/str/2,ignoreempty"`
	F10   uint64      `attr:"sys/db/id"`
}

type g2 struct {
	F0    string `attr:"u/str/1"`
	Junk0 []int8
	F2    []time.Time       `attr:"u/list/inst,value=u/item/inst"`
	F3    *g2               `attr:"u/ref/0"`
	F4    time.Time         `attr:"u/inst/0"`
	F5    *int              `attr:"u/int/2"`
	F6    map[time.Time]*g2 `attr:"u/map/inst,key=u/inst/0"`
	F7    uint64            `attr:"sys/db/id"`
	F8    g1                `attr:"u/ref/3"`
	F9    float64           `attr:"u/float/0"`
}

type g3 struct {
	F0  []float64  `attr:"u/list/float,value=u/item/float"`
	F1  map[int]g1 `attr:"u/map/int,key=u/int/0"`
	F2  *bool      `attr:"u/bool/1"`
	F3  float64    `attr:"u/float/identity,identity"`
	F4  *time.Time `attr:"u/inst/1"`
	F5  float64    `attr:"u/float/0"`
	F6  string     `attr:"u/str/0"`
	F7  g2         `attr:"u/ref/3"`
	F8  *g2        `attr:"u/ref/2"`
	F9  *g0        `attr:"u/ref/0"`
	F10 *string    `attr:"u/str/unique,unique"`
	F11 *myString  `attr:"u/str/2"`
}

type g4 struct {
	F0    uint64 `attr:"sys/db/id"`
	F1    *g4    `attr:"u/ref/3"`
	F2    *g3    `attr:"u/ref/0"`
	F3    int    `attr:"u/int/0"`
	F4    g3     `attr:"u/ref/1"`
	F5    []int  `attr:"u/list/int,value=u/item/int"`
	Junk0 uint32 `attrs:"u/int/0"`
}

type g5 struct {
	Junk0 uint32         `attrs:"u/int/0"`
	F1    string         `attr:"u/str/1"`
	F2    map[float64]g2 `attr:"u/map/float,key=u/float/0"`
	F3    uint64         `attr:"sys/db/id"`
	F4    []bool         `attr:"u/list/bool,value=u/item/bool"`
	F5    []g2           `attr:"u/slice/0"`
	F6    myInt          `attr:"u/int/0"`
	F7    *string        `attr:"u/str/identity,identity"`
}

type g6 struct {
	F0    *myFloat `attr:"u/float/1"`
	Junk0 chan int
	F2    string          `attr:"u/str/1,ignoreempty"`
	F3    []myBool        `attr:"u/list/bool,value=u/item/bool"`
	F4    []g2            `attr:"u/slice/1"`
	F5    *g3             `attr:"u/ref/2"`
	F6    myString        `attr:"u/str/0"`
	F7    map[string]*g0  `attr:"u/map/str,key=u/str/0"`
	F8    map[float64]*g3 `attr:"u/map/float,key=u/float/0"`
	F9    g3              `attr:"u/ref/0"`
}

type g7 struct {
	F0    g4         `attr:"u/ref/2"`
	F1    []int      `attr:"u/list/int,value=u/item/int"`
	F2    map[int]g7 `attr:"u/map/int,key=u/int/0"`
	F3    int        `attr:"u/int/0"`
	Junk0 func()
	Junk1 chan int
	F6    *g5 `attr:"u/ref/3"`
}

type g8 struct {
	F0    time.Time `attr:"u/inst/2"`
	F1    uint64    `attr:"sys/db/id"`
	F2    g5        `attr:"u/ref/2"`
	F3    *g2       `attr:"u/ref/0"`
	Junk1 []int8
	F5    string     `attr:"u/str/0"`
	F6    *float64   `attr:"u/float/1,ignoreempty"`
	F7    time.Time  `attr:"u/inst/1"`
	Junk0 uint32     `attrs:"u/int/0"`
	F9    map[int]g4 `attr:"u/map/int,key=u/int/0"`
}

type g9 struct {
	F0      time.Time        `attr:"u/inst/0"`
	F1      uint64           `attr:"sys/db/id"`
	F2      map[time.Time]g9 `attr:"u/map/inst,key=u/inst/0"`
	F3      *int             `attr:"u/int/unique,unique"`
	F4      *g9              `attr:"u/ref/3"`
	hidden0 map[string]struct{}
	F6      string `attr:"u/str/0"`
	F7      string `attr:"u/str/identity,identity"`
}

type g10 struct {
	F0      *g2         `attr:"u/ref/2"`
	F1      []g8        `attr:"u/slice/1"`
	F2      []time.Time `attr:"u/list/inst,value=u/item/inst"`
	Junk1   chan int
	F4      map[int]g7 `attr:"u/map/int,key=u/int/0"`
	hidden0 map[string]struct{}
	F6      float64 `attr:"u/float/0"`
	F7      uint64  `attr:"sys/db/id"`
}

type g11 struct {
	hidden0 map[string]struct{}
	F1      g7          `attr:"u/ref/2"`
	F2      string      `attr:"u/str/0"`
	F3      []int       `attr:"u/list/int,value=u/item/int"`
	F4      []float64   `attr:"u/list/float,value=u/item/float"`
	F5      []g0        `attr:"u/slice/1"`
	F6      []time.Time `attr:"u/list/inst,value=u/item/inst"`
}

type g12 struct {
	F0    uint64 `attr:"sys/db/id"`
	F1    []g10  `attr:"u/slice/1"`
	F2    bool   `attr:"u/bool/1"`
	Junk0 chan int
	F4    string          `attr:"u/str/0"`
	F5    map[float64]g10 `attr:"u/map/float,key=u/float/0"`
	F6    string          `attr:"u/str/2"`
	F7    *g11            `attr:"u/ref/1"`
	F8    map[int]g7      `attr:"u/map/int,key=u/int/0"`
	F9    []string        `attr:"u/list/str,value=u/item/str"`
	F10   g11             `attr:"u/ref/3"`
	F11   g11             `attr:"u/ref/0"`
}

type g13 struct {
	F0      *g12            `attr:"u/ref/2"`
	F1      float64         `attr:"u/float/identity,identity,ignoreempty"`
	F2      map[float64]g10 `attr:"u/map/float,key=u/float/0"`
	F3      uint64          `attr:"sys/db/id"`
	F4      []g4            `attr:"u/slice/2"`
	F5      []bool          `attr:"u/list/bool,value=u/item/bool"`
	hidden0 int
	F7      *time.Time `attr:"u/inst/identity,identity"`
	F8      int        `attr:"u/int/0"`
}

type g14 struct {
	F0 []myBool `attr:"u/list/bool,value=u/item/bool"`
	F1 g11      `attr:"u/ref/3"`
	F2 uint64   `attr:"sys/db/id"`
	F3 *g9      `attr:"u/ref/0"`
	F4 string   `attr:"u/str/0"`
	F5 int      `attr:"u/int/0"`
}

type g15 struct {
	F0 float64        `attr:"u/float/1,ignoreempty"`
	F1 map[string]*g9 `attr:"u/map/str,key=u/str/0"`
	F2 *g9            `attr:"u/ref/1"`
	F3 g8             `attr:"u/ref/3"`
	F4 *g13           `attr:"u/ref/0"`
	F5 time.Time      `attr:"u/inst/1"`
	F6 []g14          `attr:"u/slice/2"`
	F7 string         `attr:"u/str/identity,identity"`
	F8 int            `attr:"u/int/0"`
}

type g16 struct {
	F0    []g12  `attr:"u/slice/2"`
	F1    *g15   `attr:"u/ref/0"`
	Junk0 string `json:"x"`
	F3    int    `attr:"u/int/0"`
	F4    int    `attr:"u/int/1"`
	F5    *g16   `attr:"u/ref/2"`
	F6    []g6   `attr:"u/slice/1"`
	F7    string `attr:"u/str/0"`
}

type g17 struct {
	F0 uint64          `attr:"sys/db/id"`
	F1 bool            `attr:"u/bool/1"`
	F2 int             `attr:"u/int/0"`
	F3 string          `attr:"u/str/0"`
	F4 float64         `attr:"u/float/2"`
	F5 map[string]*g12 `attr:"u/map/str,key=u/str/0"`
}

type g18 struct {
	F0    []g16           `attr:"u/slice/0"`
	F1    map[string]*g11 `attr:"u/map/str,key=u/str/0"`
	F2    *g11            `attr:"u/ref/0"`
	F3    time.Time       `attr:"u/inst/1"`
	F4    float64         `attr:"u/float/0"`
	Junk0 string          `json:"x"`
	F6    *g18            `attr:"u/ref/2"`
	F7    map[float64]g18 `attr:"u/map/float,key=u/float/0"`
	F8    float64         `attr:"u/float/2"`
}

type g19 struct {
	F0    float64    `attr:"u/float/0"`
	F1    *time.Time `attr:"u/inst/2"`
	Junk0 []int8
	F3    map[float64]g19 `attr:"u/map/float,key=u/float/0"`
	F4    g18             `attr:"u/ref/2"`
	F5    []g18           `attr:"u/slice/2"`
	Junk1 chan int
	F7    map[int]g14 `attr:"u/map/int,key=u/int/0"`
	F8    []g12       `attr:"u/slice/1"`
	F9    time.Time   `attr:"u/inst/identity,identity"`
	F10   g12         `attr:"u/ref/0"`
}

type g20 struct {
	F0      *time.Time `attr:"u/inst/2"`
	F1      *g13       `attr:"u/ref/2"`
	F2      *g15       `attr:"u/ref/3"`
	F3      int        `attr:"u/int/0"`
	hidden0 map[string]struct{}
	F5      uint64       `attr:"sys/db/id"`
	F6      map[int]*g15 `attr:"u/map/int,key=u/int/0"`
	F7      []g16        `attr:"u/slice/0"`
}

type g21 struct {
	F0 string  `attr:"u/str/unique,unique"`
	F1 []bool  `attr:"u/list/bool,value=u/item/bool"`
	F2 g13     `attr:"u/ref/1"`
	F3 float64 `attr:"u/float/identity,identity"`
	F4 string  `attr:"u/str/2,ignoreempty"`
	F5 int     `attr:"u/int/0"`
}

type g22 struct {
	F0      []bool `attr:"u/list/bool,value=u/item/bool"`
	hidden0 map[string]struct{}
	F2      g19     `attr:"u/ref/0"`
	F3      myFloat `attr:"u/float/0"`
	F4      *g17    `attr:"u/ref/1"`
	F5      uint64  `attr:"sys/db/id"`
	F6      g14     `attr:"u/ref/3"`
	F7      g19     `attr:"u/ref/2"`
	hidden1 int
	F9      []g14 `attr:"u/slice/1"`
}

type g23 struct {
	F0      bool      `attr:"u/bool/2"`
	F1      int       `attr:"u/int/unique,unique"`
	F2      time.Time `attr:"u/inst/1"`
	F3      *myString `attr:"u/str/unique,unique"`
	hidden0 map[string]struct{}
	F5      uint64    `attr:"sys/db/id"`
	F6      g21       `attr:"u/ref/2"`
	F7      *myString `attr:"u/str/0"`
	F8      *g22      `attr:"u/ref/1"`
	F9      float64   `attr:"u/float/0"`
}

type g24 struct {
	F0 []myString `attr:"u/list/str,value=u/item/str"`
	F1 float64    `attr:"u/float/0"`
	F2 []bool     `attr:"u/list/bool,value=u/item/bool"`
}

type g25 struct {
	F0  int       `attr:"u/int/identity,identity,ignoreempty"`
	F1  int       `attr:"u/int/2"`
	F2  time.Time `attr:"u/inst/2"`
	F3  uint64    `attr:"sys/db/id"`
	F4  g18       `attr:"u/ref/3"`
	F5  int       `attr:"u/int/0"`
	F6  *float64  `attr:"u/float/1"`
	F7  []myBool  `attr:"u/list/bool,value=u/item/bool"`
	F8  []g24     `attr:"u/slice/2"`
	F9  *g20      `attr:"u/ref/2"`
	F10 []float64 `attr:"u/list/float,value=u/item/float"`
	F11 *g21      `attr:"u/ref/1"`
}

type g26 struct {
	F0    *g25   `attr:"u/ref/0"`
	F1    int    `attr:"u/int/1"`
	F2    uint64 `attr:"sys/db/id"`
	F3    []bool `attr:"u/list/bool,value=u/item/bool"`
	Junk0 uint32 `attrs:"u/int/0"`
	F5    g21    `attr:"u/ref/2"`
	F6    int    `attr:"u/int/0"`
	F7    bool   `attr:"u/bool/1"`
	F8    g22    `attr:"u/ref/3"`
	Junk1 func()
}

type g27 struct {
	F0      float64 `attr:"u/float/0"`
	F1      []g24   `attr:"u/slice/0"`
	F2      *g24    `attr:"u/ref/3"`
	Junk1   string  `json:"x"`
	hidden0 map[string]struct{}
	F5      uint64 `attr:"sys/db/id"`
}

type g28 struct {
	F0    int   `attr:"u/int/0"`
	F1    []g18 `attr:"u/slice/0"`
	Junk0 chan int
	F3    g25     `attr:"u/ref/2"`
	F4    *string `attr:"u/str/2"`
	F5    g25     `attr:"u/ref/0"`
	F6    float64 `attr:"u/float/1"`
	F7    uint64  `attr:"sys/db/id"`
}

type g29 struct {
	F0    *myInt     `attr:"u/int/0"`
	F1    *time.Time `attr:"u/inst/1"`
	F2    *g21       `attr:"u/ref/3"`
	Junk0 func()
	Junk1 string     `json:"x"`
	F5    uint64     `attr:"sys/db/id"`
	F6    float64    `attr:"u/float/0"`
	F7    *int       `attr:"u/int/1"`
	F8    *time.Time `attr:"u/inst/2"`
}

type g30 struct {
	F0 []g22   `attr:"u/slice/2"`
	F1 float64 `attr:"u/float/0"`
	F2 string  `attr:"u/str/1,ignoreempty"`
}

type g31 struct {
	F0    []myInt  `attr:"u/list/int,value=u/item/int"`
	F1    myString `attr:"u/str/0"`
	F2    g30      `attr:"u/ref/3"`
	Junk1 uint32   `attrs:"u/int/0"`
	F4    *g31     `attr:"u/ref/0"`
	F5    uint64   `attr:"sys/db/id"`
	Junk0 string   `json:"x"`
}

type g32 struct {
	F0    *bool `attr:"u/bool/0"`
	F1    *g26  `attr:"u/ref/2"`
	F2    *g29  `attr:"u/ref/1"`
	Junk0 any
	F4    []int     `attr:"u/list/int,value=u/item/int"`
	F5    time.Time `attr:"u/inst/0"`
	F6    uint64    `attr:"sys/db/id"`
	F7    int       `attr:"u/int/0"`
}

type g33 struct {
	F0  map[float64]g29    `attr:"u/map/float,key=u/float/0"`
	F1  *time.Time         `attr:"u/inst/identity,identity"`
	F2  *time.Time         `attr:"u/inst/0"`
	F3  uint64             `attr:"sys/db/id"`
	F4  map[time.Time]*g32 `attr:"u/map/inst,key=u/inst/0"`
	F5  time.Time          `attr:"u/inst/1"`
	F6  myFloat            `attr:"u/float/identity,identity,ignoreempty"`
	F7  []string           `attr:"u/list/str,value=u/item/str"`
	F8  float64            `attr:"u/float/0"`
	F9  *g28               `attr:"u/ref/3"`
	F10 []int              `attr:"u/list/int,value=u/item/int"`
	F11 int                `attr:"u/int/0"`
	F12 *g30               `attr:"u/ref/2"`
}

type g34 struct {
	F0    *g32 `attr:"u/ref/2"`
	Junk1 func()
	Junk0 chan int
	F3    float64 `attr:"u/float/1,ignoreempty"`
	F4    []g26   `attr:"u/slice/0"`
	F5    g26     `attr:"u/ref/1"`
	F6    string  `attr:"u/str/0"`
}

type g35 struct {
	hidden1 map[string]struct{}
	F1      *g33         `attr:"u/ref/2"`
	F2      *g28         `attr:"u/ref/3"`
	F3      myBool       `attr:"u/bool/2"`
	F4      float64      `attr:"u/float/identity,identity,ignoreempty"`
	F5      map[int]*g35 `attr:"u/map/int,key=u/int/0"`
	F6      uint64       `attr:"sys/db/id"`
	F7      int          `attr:"u/int/0"`
	Junk0   any
	F9      *g31 `attr:"u/ref/0"`
}

type g36 struct {
	F0      map[time.Time]g32 `attr:"u/map/inst,key=u/inst/0"`
	F1      []g36             `attr:"u/slice/1"`
	F2      myString          `attr:"u/str/0"`
	F3      *bool             `attr:"u/bool/1"`
	Junk1   func()
	F5      *g32        `attr:"u/ref/2"`
	F6      []time.Time `attr:"u/list/inst,value=u/item/inst"`
	hidden0 int
}

type g37 struct {
	F0 *bool  `attr:"u/bool/0"`
	F1 string `attr:"u/str/identity,identity"`
	F2 string `attr:"u/str/0"`
	F3 int    `attr:"u/int/2"`
}

type g38 struct {
	F0 *g31   `attr:"u/ref/1"`
	F1 uint64 `attr:"sys/db/id"`
	F2 *bool  `attr:"u/bool/1,ignoreempty"`
	F3 string `attr:"u/str/0"`
	F4 bool   `attr:"u/bool/2,ignoreempty"`
}

type g39 struct {
	F0      *time.Time `attr:"u/inst/identity,identity"`
	F1      *g39       `attr:"u/ref/3"`
	F2      []g32      `attr:"u/slice/2"`
	F3      []float64  `attr:"u/list/float,value=u/item/float"`
	hidden0 int
	F5      map[myString]*g37  `attr:"u/map/str,key=u/str/0"`
	F6      int                `attr:"u/int/0"`
	F7      []int              `attr:"u/list/int,value=u/item/int"`
	F8      int                `attr:"u/int/identity,identity,ignoreempty"`
	F9      map[int]*g32       `attr:"u/map/int,key=u/int/0"`
	F10     map[time.Time]*g32 `attr:"u/map/inst,key=u/inst/0"`
	F11     uint64             `attr:"sys/db/id"`
}

type g40 struct {
	F0 map[float64]g33 `attr:"u/map/float,key=u/float/0"`
	F1 []g40           `attr:"u/slice/2"`
	F2 int             `attr:"u/int/0"`
	F3 uint64          `attr:"sys/db/id"`
	F4 g36             `attr:"u/ref/2"`
	F5 *g32            `attr:"u/ref/1"`
	F6 map[int]*g32    `attr:"u/map/int,key=u/int/0"`
	F7 *g40            `attr:"u/ref/0"`
}

type g41 struct {
	F0      string   `attr:"u/str/0"`
	F1      *g38     `attr:"u/ref/2"`
	F2      myString `attr:"u/str/identity,identity"`
	F3      g33      `attr:"u/ref/3"`
	F4      uint64   `attr:"sys/db/id"`
	hidden0 int
	F6      bool         `attr:"u/bool/2"`
	F7      map[int]*g33 `attr:"u/map/int,key=u/int/0"`
}

type g42 struct {
	F0    int    `attr:"u/int/1,ignoreempty"`
	F1    int    `attr:"u/int/0"`
	F2    uint64 `attr:"sys/db/id"`
	F3    *g37   `attr:"u/ref/2"`
	Junk0 chan int
	F5    myBool  `attr:"u/bool/0"`
	F6    float64 `attr:"u/float/1"`
	F7    []g42   `attr:"u/slice/1"`
}

type g43 struct {
	Junk1 func()
	F1    uint64       `attr:"sys/db/id"`
	F2    string       `attr:"u/str/2"`
	F3    map[int]*g40 `attr:"u/map/int,key=u/int/0"`
	F4    *float64     `attr:"u/float/1"`
	F5    string       `attr:"u/str/0"`
	F6    time.Time    `attr:"u/inst/2"`
	F7    []int        `attr:"u/list/int,value=u/item/int"`
	F8    *g43         `attr:"u/ref/0"`
	F9    myInt        `attr:"u/int/1"`
	Junk0 uint32       `attrs:"u/int/0"`
}

type g44 struct {
	F0 []int     `attr:"u/list/int,value=u/item/int"`
	F1 g38       `attr:"u/ref/0"`
	F2 float64   `attr:"u/float/0"`
	F3 []float64 `attr:"u/list/float,value=u/item/float"`
	F4 uint64    `attr:"sys/db/id"`
}

type g45 struct {
	F0    time.Time `attr:"u/inst/2"`
	F1    time.Time `attr:"u/inst/1"`
	F2    string    `attr:"u/str/1"`
	F3    *g44      `attr:"u/ref/0"`
	F4    []g38     `attr:"u/slice/0"`
	F5    myString  `attr:"u/str/0"`
	F6    *g38      `attr:"u/ref/2"`
	Junk0 any
	F8    uint64 `attr:"sys/db/id"`
}

type g46 struct {
	F0 *string         `attr:"u/str/2"`
	F1 int             `attr:"u/int/0"`
	F2 *int            `attr:"u/int/2"`
	F3 map[string]*g38 `attr:"u/map/str,key=u/str/0"`
	F4 *g43            `attr:"u/ref/3"`
	F5 *g43            `attr:"u/ref/2"`
	F6 string          `attr:"u/str/0"`
}

type g47 struct {
	F0      g41       `attr:"u/ref/3"`
	F1      time.Time `attr:"u/inst/0"`
	F2      myInt     `attr:"u/int/0"`
	hidden0 int
	F4      *myString `attr:"u/str/identity,identity"`
	F5      g42       `attr:"u/ref/0"`
	F6      *float64  `attr:"u/float/1"`
	F7      time.Time `attr:"u/inst/1"`
	F8      *myInt    `attr:"u/int/2"`
	F9      int       `attr:"u/int/identity,identity"`
	F10     []g44     `attr:"u/slice/1"`
}

type g48 struct {
	F0 uint64             `attr:"sys/db/id"`
	F1 g43                `attr:"u/ref/2"`
	F2 int                `attr:"u/int/0"`
	F3 map[float64]g44    `attr:"u/map/float,key=u/float/0"`
	F4 g43                `attr:"u/ref/0"`
	F5 *g45               `attr:"u/ref/1"`
	F6 g43                `attr:"u/ref/3"`
	F7 map[time.Time]*g47 `attr:"u/map/inst,key=u/inst/0"`
}

type g49 struct {
	F0 string             `attr:"u/str/2"`
	F1 time.Time          `attr:"u/inst/identity,identity"`
	F2 *string            `attr:"u/str/identity,identity"`
	F3 g47                `attr:"u/ref/1"`
	F4 *myFloat           `attr:"u/float/2,ignoreempty"`
	F5 float64            `attr:"u/float/0"`
	F6 map[time.Time]*g47 `attr:"u/map/inst,key=u/inst/0"`
	F7 time.Time          `attr:"u/inst/1"`
	F8 uint64             `attr:"sys/db/id"`
}

type g50 struct {
	F0 string       `attr:"u/str/2,ignoreempty"`
	F1 map[bool]g42 `attr:"u/map/bool,key=u/bool/0"`
	F2 myString     `attr:"u/str/0"`
	F3 []g44        `attr:"u/slice/0"`
	F4 uint64       `attr:"sys/db/id"`
	F5 *int         `attr:"u/int/0"`
	F6 float64      `attr:"u/float/1"`
	F7 g42          `attr:"u/ref/3"`
}

type g51 struct {
	F0      map[int]*g46 `attr:"u/map/int,key=u/int/0"`
	F1      g45          `attr:"u/ref/1"`
	F2      []g44        `attr:"u/slice/0"`
	F3      *float64     `attr:"u/float/identity,identity,ignoreempty"`
	F4      string       `attr:"u/str/0"`
	F5      *g49         `attr:"u/ref/3"`
	F6      *g43         `attr:"u/ref/0"`
	F7      *g51         `attr:"u/ref/2"`
	F8      []g42        `attr:"u/slice/1"`
	Junk1   string       `json:"x"`
	F10     []g50        `attr:"u/slice/2"`
	hidden0 map[string]struct{}
}

type g52 struct {
	Junk0 chan int
	F1    *float64  `attr:"u/float/2,ignoreempty"`
	F2    *bool     `attr:"u/bool/0"`
	F3    *bool     `attr:"u/bool/1"`
	F4    uint64    `attr:"sys/db/id"`
	F5    []g46     `attr:"u/slice/2"`
	F6    time.Time `attr:"u/inst/1"`
	F7    time.Time `attr:"u/inst/0"`
	F8    *g45      `attr:"u/ref/1"`
	Junk1 func()
	F10   *g44   `attr:"u/ref/0"`
	F11   string `attr:"u/str/0"`
}

type g53 struct {
	F0    uint64     `attr:"sys/db/id"`
	F1    string     `attr:"u/str/2"`
	F2    *int       `attr:"u/int/identity,identity"`
	Junk0 uint32     `attrs:"u/int/0"`
	F4    int        `attr:"u/int/unique,unique"`
	F5    *g45       `attr:"u/ref/2"`
	F6    *time.Time `attr:"u/inst/2"`
	F7    g49        `attr:"u/ref/0"`
	F8    string     `attr:"u/str/0"`
	F9    *bool      `attr:"u/bool/2,ignoreempty"`
	F10   []g44      `attr:"u/slice/1"`
}

type g54 struct {
	F0 g51               `attr:"u/ref/1"`
	F1 *myString         `attr:"u/str/0"`
	F2 *g54              `attr:"u/ref/0"`
	F3 *g51              `attr:"u/ref/2"`
	F4 float64           `attr:"u/float/2"`
	F5 map[time.Time]g52 `attr:"u/map/inst,key=u/inst/0"`
	F6 uint64            `attr:"sys/db/id"`
	F7 myInt             `attr:"u/int/0"`
	F8 []g48             `attr:"u/slice/2"`
}

type g55 struct {
	F0      []g48  `attr:"u/slice/0"`
	F1      int    `attr:"u/int/0"`
	F2      string `attr:"u/str/0"`
	hidden0 map[string]struct{}
	F4      string `attr:"u/str/2"`
	F5      *g55   `attr:"u/ref/1"`
	F6      uint64 `attr:"sys/db/id"`
	F7      *g51   `attr:"u/ref/0"`
	F8      *g51   `attr:"u/ref/2"`
}

type g56 struct {
	F0 g52             `attr:"u/ref/3"`
	F1 int             `attr:"u/int/0"`
	F2 uint64          `attr:"sys/db/id"`
	F3 map[string]*g55 `attr:"u/map/str,key=u/str/0"`
}

type g57 struct {
	F0    g49              `attr:"u/ref/3"`
	F1    myString         `attr:"u/str/0"`
	F2    *float64         `attr:"u/float/0"`
	F3    int              `attr:"u/int/identity,identity"`
	F4    *string          `attr:"u/str/unique,unique"`
	F5    *int             `attr:"u/int/0"`
	Junk0 string           `json:"x"`
	F7    map[myString]g57 `attr:"u/map/str,key=u/str/0"`
	F8    *g58             `attr:"u/ref/2"`
	F9    string           `attr:"u/str/2"`
	F10   g49              `attr:"u/ref/0"`
	F11   float64          `attr:"u/float/2"`
	F12   uint64           `attr:"sys/db/id"`
}

type g58 struct {
	F0    g51                `attr:"u/ref/2"`
	F1    map[time.Time]*g52 `attr:"u/map/inst,key=u/inst/0"`
	Junk1 func()
	F3    bool      `attr:"u/bool/2,ignoreempty"`
	F4    float64   `attr:"u/float/0"`
	F5    []float64 `attr:"u/list/float,value=u/item/float"`
	Junk0 uint32    `attrs:"u/int/0"`
	F7    g55       `attr:"u/ref/3"`
	F8    *string   `attr:"u/str/2"`
	F9    []g46     `attr:"u/slice/2"`
	F10   []g50     `attr:"u/slice/1"`
}

type g59 struct {
	F0  g53                `attr:"u/ref/0"`
	F1  bool               `attr:"u/bool/1"`
	F2  []g52              `attr:"u/slice/2"`
	F3  map[time.Time]*g52 `attr:"u/map/inst,key=u/inst/0"`
	F4  *float64           `attr:"u/float/0"`
	F5  []g54              `attr:"u/slice/1"`
	F6  []int              `attr:"u/list/int,value=u/item/int"`
	F7  string             `attr:"u/str/0"`
	F8  *g55               `attr:"u/ref/3"`
	F9  map[string]g52     `attr:"u/map/str,key=u/str/0"`
	F10 uint64             `attr:"sys/db/id"`
}

type g60 struct {
	F0 bool      `attr:"u/bool/1,ignoreempty"`
	F1 *float64  `attr:"u/float/0"`
	F2 []g50     `attr:"u/slice/1"`
	F3 []float64 `attr:"u/list/float,value=u/item/float"`
	F4 int       `attr:"u/int/0"`
	F5 *g59      `attr:"u/ref/0"`
	F6 *g57      `attr:"u/ref/3"`
	F7 *g55      `attr:"u/ref/2"`
	F8 string    `attr:"u/str/0"`
	F9 g54       `attr:"u/ref/1"`
}

type g61 struct {
	F0      map[float64]g58 `attr:"u/map/float,key=u/float/0"`
	F1      float64         `attr:"u/float/0"`
	F2      uint64          `attr:"sys/db/id"`
	F3      int             `attr:"u/int/0"`
	F4      *g61            `attr:"u/ref/1"`
	hidden0 int
	F6      *bool     `attr:"u/bool/2"`
	F7      time.Time `attr:"u/inst/2"`
	F8      *bool     `attr:"u/bool/1"`
	F9      g54       `attr:"u/ref/0"`
}

type g62 struct {
	F0 *myInt     `attr:"u/int/2"`
	F1 bool       `attr:"u/bool/2"`
	F2 *time.Time `attr:"u/inst/1"`
	F3 *float64   `attr:"u/float/2"`
	F4 myInt      `attr:"u/int/0"`
	F5 string     `attr:"u/str/0"`
	F6 uint64     `attr:"sys/db/id"`
	F7 g60        `attr:"u/ref/2"`
}

type g63 struct {
	F0      string    `attr:"u/str/0"`
	F1      time.Time `attr:"u/inst/0"`
	F2      []bool    `attr:"u/list/bool,value=u/item/bool"`
	Junk1   chan int
	F4      bool              `attr:"u/bool/1"`
	F5      map[myString]*g59 `attr:"u/map/str,key=u/str/0"`
	F6      g57               `attr:"u/ref/3"`
	F7      uint64            `attr:"sys/db/id"`
	hidden0 map[string]struct{}
	F9      myInt     `attr:"u/int/2"`
	F10     time.Time `attr:"u/inst/identity,identity"`
}

type g64 struct {
	F0 *g58     `attr:"u/ref/0"`
	F1 []g58    `attr:"u/slice/1"`
	F2 uint64   `attr:"sys/db/id"`
	F3 myString `attr:"u/str/0"`
	F4 []g52    `attr:"u/slice/2"`
}

type g65 struct {
	F0    float64         `attr:"u/float/0"`
	Junk0 uint32          `attrs:"u/int/0"`
	F2    map[string]*g60 `attr:"u/map/str,key=u/str/0"`
	F3    uint64          `attr:"sys/db/id"`
}

type g66 struct {
	F0    g63          `attr:"u/ref/1"`
	F1    g58          `attr:"u/ref/0"`
	F2    []g60        `attr:"u/slice/2"`
	F3    map[int]*g61 `attr:"u/map/int,key=u/int/0"`
	F4    uint64       `attr:"sys/db/id"`
	F5    float64      `attr:"u/float/0"`
	F6    bool         `attr:"u/bool/1"`
	F7    time.Time    `attr:"u/inst/1"`
	Junk0 chan int
	F9    g65 `attr:"u/ref/2"`
}

type g67 struct {
	F0    map[float64]g61 `attr:"u/map/float,key=u/float/0"`
	F1    []float64       `attr:"u/list/float,value=u/item/float"`
	F2    []string        `attr:"u/list/str,value=u/item/str"`
	F3    int             `attr:"u/int/0"`
	F4    *string         `attr:"u/str/identity,identity"`
	F5    []g62           `attr:"u/slice/2"`
	Junk0 string          `json:"x"`
	F7    *myFloat        `attr:"u/float/2"`
}

type g68 struct {
	F0      []g68              `attr:"u/slice/1"`
	F1      map[float64]*g65   `attr:"u/map/float,key=u/float/0"`
	F2      uint64             `attr:"sys/db/id"`
	F3      string             `attr:"u/str/0"`
	F4      map[string]*g63    `attr:"u/map/str,key=u/str/0"`
	F5      map[time.Time]*g63 `attr:"u/map/inst,key=u/inst/0"`
	F6      *g66               `attr:"u/ref/0"`
	hidden0 int
}

type g69 struct {
	F0    []int             `attr:"u/list/int,value=u/item/int"`
	F1    g64               `attr:"u/ref/2"`
	F2    uint64            `attr:"sys/db/id"`
	F3    map[time.Time]g63 `attr:"u/map/inst,key=u/inst/0"`
	F4    []g64             `attr:"u/slice/2"`
	F5    int               `attr:"u/int/0"`
	F6    []myString        `attr:"u/list/str,value=u/item/str"`
	F7    myString          `attr:"u/str/1"`
	F8    *time.Time        `attr:"u/inst/1"`
	F9    map[float64]g65   `attr:"u/map/float,key=u/float/0"`
	Junk0 uint32            `attrs:"u/int/0"`
	F11   string            `attr:"u/str/2"`
	F12   int               `attr:"u/int/2"`
}

type g70 struct {
	Junk0 any
	F1    uint64   `attr:"sys/db/id"`
	F2    []string `attr:"u/list/str,value=u/item/str"`
	F3    int      `attr:"u/int/0"`
	F4    g67      `attr:"u/ref/0"`
	Junk1 func()
	F6    map[float64]g65 `attr:"u/map/float,key=u/float/0"`
	F7    []int           `attr:"u/list/int,value=u/item/int"`
	F8    g68             `attr:"u/ref/3"`
}

type g71 struct {
	F0      map[float64]g65 `attr:"u/map/float,key=u/float/0"`
	F1      *g65            `attr:"u/ref/3"`
	F2      *string         `attr:"u/str/1"`
	F3      *myInt          `attr:"u/int/1"`
	F4      int             `attr:"u/int/0"`
	F5      *string         `attr:"u/str/identity,identity,ignoreempty"`
	F6      *int            `attr:"u/int/identity,identity"`
	hidden0 map[string]struct{}
	Junk1   func()
	F9      *float64 `attr:"u/float/0"`
}

func namesakes0() {
	type inner struct {
		F0    map[string]*g16   `attr:"u/map/str,key=u/str/0"`
		F1    g16               `attr:"u/ref/2"`
		F2    g16               `attr:"u/ref/0"`
		F3    time.Time         `attr:"u/inst/2"`
		Junk0 uint32            `attrs:"u/int/0"`
		F5    int               `attr:"u/int/0"`
		F6    []myFloat         `attr:"u/list/float,value=u/item/float"`
		F7    g16               `attr:"u/ref/3"`
		F8    map[time.Time]g32 `attr:"u/map/inst,key=u/inst/0"`
	}

	type local struct {
		F0 int                 `attr:"u/int/0"`
		F1 uint64              `attr:"sys/db/id"`
		F2 g16                 `attr:"u/ref/1"`
		F3 *myString           `attr:"u/str/2"`
		F4 time.Time           `attr:"u/inst/0"`
		F5 []time.Time         `attr:"u/list/inst,value=u/item/inst"`
		F6 map[time.Time]local `attr:"u/map/inst,key=u/inst/0"`
		F7 []inner             `attr:"u/slice/2"`
	}

	registerFamily[inner](true)
	registerFamily[local](true)
}

func namesakes1() {
	type inner struct {
		F0    float64      `attr:"u/float/0"`
		F1    map[int]*g33 `attr:"u/map/int,key=u/int/0"`
		F2    int          `attr:"u/int/1,ignoreempty"`
		F3    time.Time    `attr:"u/inst/1"`
		Junk0 []int8
		F5    uint64        `attr:"sys/db/id"`
		Junk1 string        `json:"x"`
		F7    *g66          `attr:"u/ref/3"`
		F8    *inner        `attr:"u/ref/2"`
		F9    map[string]g0 `attr:"u/map/str,key=u/str/0"`
		F10   *g0           `attr:"u/ref/1"`
		F11   int           `attr:"u/int/0"`
	}

	type local struct {
		F0      int              `attr:"u/int/identity,identity"`
		F1      []string         `attr:"u/list/str,value=u/item/str"`
		F2      int              `attr:"u/int/0"`
		F3      map[float64]*g33 `attr:"u/map/float,key=u/float/0"`
		hidden0 map[string]struct{}
		F5      string     `attr:"u/str/2,ignoreempty"`
		F6      *time.Time `attr:"u/inst/identity,identity"`
		F7      float64    `attr:"u/float/1"`
		hidden1 int
		F9      inner `attr:"u/ref/1"`
	}

	registerFamily[inner](true)
	registerFamily[local](false)
}

func namesakes2() {
	type inner struct {
		hidden0 int
		F1      g23     `attr:"u/ref/1"`
		F2      *inner  `attr:"u/ref/0"`
		F3      []inner `attr:"u/slice/1"`
		F4      *g23    `attr:"u/ref/2"`
		F5      *myInt  `attr:"u/int/1,ignoreempty"`
		F6      *int    `attr:"u/int/0"`
		F7      string  `attr:"u/str/0"`
		F8      []inner `attr:"u/slice/2"`
	}

	type local struct {
		F0 *g36      `attr:"u/ref/2"`
		F1 *local    `attr:"u/ref/3"`
		F2 bool      `attr:"u/bool/1"`
		F3 float64   `attr:"u/float/0"`
		F4 []local   `attr:"u/slice/0"`
		F5 inner     `attr:"u/ref/0"`
		F6 time.Time `attr:"u/inst/1"`
		F7 *inner    `attr:"u/ref/1"`
	}

	registerFamily[inner](true)
	registerFamily[local](true)
}

func namesakes3() {
	type inner struct {
		F0 []inner         `attr:"u/slice/0"`
		F1 *g17            `attr:"u/ref/2"`
		F2 uint64          `attr:"sys/db/id"`
		F3 *g17            `attr:"u/ref/3"`
		F4 []string        `attr:"u/list/str,value=u/item/str"`
		F5 g17             `attr:"u/ref/0"`
		F6 int             `attr:"u/int/0"`
		F7 map[string]*g17 `attr:"u/map/str,key=u/str/0"`
	}

	type local struct {
		F0    g52        `attr:"u/ref/3"`
		F1    *float64   `attr:"u/float/0"`
		F2    int        `attr:"u/int/2"`
		F3    uint64     `attr:"sys/db/id"`
		F4    *local     `attr:"u/ref/1"`
		Junk1 uint32     `attrs:"u/int/0"`
		F6    *time.Time `attr:"u/inst/identity,identity"`
		F7    *time.Time `attr:"u/inst/0"`
		F8    myInt      `attr:"u/int/0"`
		Junk0 any
	}

	registerFamily[inner](true)
	registerFamily[local](false)
}

func namesakes4() {
	type inner struct {
		F0    g6     `attr:"u/ref/0"`
		F1    string `attr:"u/str/0"`
		F2    uint64 `attr:"sys/db/id"`
		Junk0 any
	}

	type local struct {
		F0 *bool        `attr:"u/bool/0"`
		F1 map[int]*g28 `attr:"u/map/int,key=u/int/0"`
		F2 string       `attr:"u/str/0"`
		F3 *local       `attr:"u/ref/1"`
		F4 *time.Time   `attr:"u/inst/1"`
		F5 []local      `attr:"u/slice/1"`
		F6 int          `attr:"u/int/0"`
		F7 *float64     `attr:"u/float/2"`
	}

	registerFamily[inner](true)
	registerFamily[local](true)
}

func namesakes5() {
	type inner struct {
		F0    *int     `attr:"u/int/1"`
		F1    myString `attr:"u/str/0"`
		Junk0 string   `json:"x"`
		F3    uint64   `attr:"sys/db/id"`
		F4    g25      `attr:"u/ref/0"`
	}

	type local struct {
		F0  string           `attr:"u/str/0"`
		F1  *g64             `attr:"u/ref/3"`
		F2  *int             `attr:"u/int/2"`
		F3  *g25             `attr:"u/ref/1"`
		F4  *local           `attr:"u/ref/2"`
		F5  map[string]local `attr:"u/map/str,key=u/str/0"`
		F6  []float64        `attr:"u/list/float,value=u/item/float"`
		F7  uint64           `attr:"sys/db/id"`
		F8  *inner           `attr:"u/ref/0"`
		F9  *int             `attr:"u/int/identity,identity,ignoreempty"`
		F10 *string          `attr:"u/str/2"`
		F11 int              `attr:"u/int/0"`
		F12 float64          `attr:"u/float/2"`
	}

	registerFamily[inner](true)
	registerFamily[local](false)
}

func namesakes6() {
	type inner struct {
		F0    *inner `attr:"u/ref/2"`
		F1    string `attr:"u/str/0"`
		Junk0 any
		F3    []inner   `attr:"u/slice/2"`
		F4    []g44     `attr:"u/slice/0"`
		F5    uint64    `attr:"sys/db/id"`
		F6    time.Time `attr:"u/inst/2"`
		F7    g37       `attr:"u/ref/1"`
		F8    int       `attr:"u/int/0"`
		F9    int       `attr:"u/int/2"`
		F10   *inner    `attr:"u/ref/3"`
	}

	type local struct {
		F0    []bool  `attr:"u/list/bool,value=u/item/bool"`
		F1    float64 `attr:"u/float/0"`
		F2    uint64  `attr:"sys/db/id"`
		F3    *local  `attr:"u/ref/3"`
		Junk0 func()
		F5    int    `attr:"u/int/1,ignoreempty"`
		F6    *local `attr:"u/ref/0"`
		F7    g44    `attr:"u/ref/2"`
	}

	registerFamily[inner](true)
	registerFamily[local](true)
}

func namesakes7() {
	type inner struct {
		F0    map[int]g56 `attr:"u/map/int,key=u/int/0"`
		F1    float64     `attr:"u/float/0"`
		F2    []float64   `attr:"u/list/float,value=u/item/float"`
		F3    uint64      `attr:"sys/db/id"`
		F4    time.Time   `attr:"u/inst/1"`
		F5    *g44        `attr:"u/ref/3"`
		F6    g56         `attr:"u/ref/0"`
		Junk0 func()
		F8    g44  `attr:"u/ref/1"`
		F9    *int `attr:"u/int/2,ignoreempty"`
	}

	type local struct {
		F0 time.Time  `attr:"u/inst/0"`
		F1 bool       `attr:"u/bool/2"`
		F2 int        `attr:"u/int/unique,unique"`
		F3 *string    `attr:"u/str/identity,identity"`
		F4 uint64     `attr:"sys/db/id"`
		F5 *time.Time `attr:"u/inst/2"`
		F6 []inner    `attr:"u/slice/0"`
		F7 inner      `attr:"u/ref/3"`
		F8 float64    `attr:"u/float/0"`
	}

	registerFamily[inner](true)
	registerFamily[local](false)
}

func namesakes8() {
	type inner struct {
		F0      *inner  `attr:"u/ref/2"`
		F1      float64 `attr:"u/float/0"`
		F2      []inner `attr:"u/slice/1"`
		F3      *g15    `attr:"u/ref/3"`
		hidden0 int
		F5      time.Time `attr:"u/inst/1"`
		F6      []g22     `attr:"u/slice/2"`
		F7      *int      `attr:"u/int/1"`
		F8      uint64    `attr:"sys/db/id"`
	}

	type local struct {
		F0 *inner      `attr:"u/ref/3"`
		F1 *g37        `attr:"u/ref/2"`
		F2 *string     `attr:"u/str/0"`
		F3 inner       `attr:"u/ref/1"`
		F4 string      `attr:"u/str/1"`
		F5 int         `attr:"u/int/1,ignoreempty"`
		F6 float64     `attr:"u/float/0"`
		F7 *bool       `attr:"u/bool/1"`
		F8 []time.Time `attr:"u/list/inst,value=u/item/inst"`
	}

	registerFamily[inner](true)
	registerFamily[local](true)
}

func namesakes9() {
	type inner struct {
		F0    *g37   `attr:"u/ref/0"`
		F1    g5     `attr:"u/ref/2"`
		F2    int    `attr:"u/int/0"`
		Junk0 string `json:"x"`
		F4    uint64 `attr:"sys/db/id"`
		F5    g5     `attr:"u/ref/3"`
	}

	type local struct {
		F0 inner      `attr:"u/ref/1"`
		F1 inner      `attr:"u/ref/3"`
		F2 uint64     `attr:"sys/db/id"`
		F3 map[int]g5 `attr:"u/map/int,key=u/int/0"`
		F4 *int       `attr:"u/int/unique,unique"`
		F5 int        `attr:"u/int/0"`
	}

	registerFamily[inner](true)
	registerFamily[local](false)
}

type h0 struct {
	F0 uint64     `attr:"sys/db/id"`
	F1 int        `attr:"u/int/0"`
	F2 *time.Time `attr:"u/inst/2,ignoreempty"`
	F3 *string    `attr:"u/str/2,ignoreempty"`
}

type h1 struct {
	F0 int        `attr:"u/int/2,ignoreempty"`
	F1 float64    `attr:"u/float/2,ignoreempty"`
	F2 int        `attr:"u/int/0"`
	F3 map[int]h0 `attr:"u/map/int,key=u/int/0"`
	F4 uint64     `attr:"sys/db/id"`
	F5 *int       `attr:"u/int/unique,ignoreempty,unique"`
	F6 *string    `attr:"u/str/1,ignoreempty"`
	F7 time.Time  `attr:"u/inst/1"`
	F8 h0         `attr:"u/ref/3"`
}

type h2 struct {
	F0  map[int]*h1 `attr:"u/map/int,key=u/int/0"`
	F1  []h0        `attr:"u/slice/2"`
	F2  int         `attr:"u/int/0"`
	F3  myBool      `attr:"u/bool/1"`
	F4  int         `attr:"u/int/1"`
	F5  uint64      `attr:"sys/db/id"`
	F6  time.Time   `attr:"u/inst/2,ignoreempty"`
	F7  *time.Time  `attr:"u/inst/1,ignoreempty"`
	F8  h1          `attr:"u/ref/0"`
	F9  []myBool    `attr:"u/list/bool,value=u/item/bool"`
	F10 *int        `attr:"u/int/2"`
}

type h3 struct {
	F0 bool       `attr:"u/bool/1,ignoreempty"`
	F1 myString   `attr:"u/str/1,ignoreempty"`
	F2 *string    `attr:"u/str/2"`
	F3 *h1        `attr:"u/ref/0"`
	F4 *h3        `attr:"u/ref/2"`
	F5 *time.Time `attr:"u/inst/1"`
	F6 string     `attr:"u/str/0"`
	F7 *float64   `attr:"u/float/1,ignoreempty"`
	F8 *bool      `attr:"u/bool/2,ignoreempty"`
	F9 time.Time  `attr:"u/inst/identity,identity,ignoreempty"`
}

type h4 struct {
	F0 map[myInt]*h1 `attr:"u/map/int,key=u/int/0"`
	F1 []h2          `attr:"u/slice/2"`
	F2 *h4           `attr:"u/ref/0"`
	F3 myBool        `attr:"u/bool/1,ignoreempty"`
	F4 uint64        `attr:"sys/db/id"`
	F5 time.Time     `attr:"u/inst/2,ignoreempty"`
	F6 string        `attr:"u/str/0"`
	F7 *time.Time    `attr:"u/inst/1"`
	F8 float64       `attr:"u/float/1,ignoreempty"`
	F9 *int          `attr:"u/int/2,ignoreempty"`
}

type h5 struct {
	F0 int     `attr:"u/int/2,ignoreempty"`
	F1 *string `attr:"u/str/unique,ignoreempty,unique"`
	F2 myInt   `attr:"u/int/1,ignoreempty"`
	F3 *h4     `attr:"u/ref/2"`
	F4 []h2    `attr:"u/slice/0"`
	F5 float64 `attr:"u/float/0"`
	F6 *myBool `attr:"u/bool/1,ignoreempty"`
	F7 string  `attr:"u/str/2,ignoreempty"`
}

type h6 struct {
	F0 string     `attr:"u/str/0"`
	F1 int        `attr:"u/int/2"`
	F2 *time.Time `attr:"u/inst/2,ignoreempty"`
	F3 *string    `attr:"u/str/2"`
	F4 *int       `attr:"u/int/1,ignoreempty"`
	F5 []h4       `attr:"u/slice/1"`
	F6 uint64     `attr:"sys/db/id"`
}

type h7 struct {
	F0 time.Time `attr:"u/inst/identity,identity"`
	F1 *string   `attr:"u/str/1"`
	F2 myFloat   `attr:"u/float/2,ignoreempty"`
	F3 h4        `attr:"u/ref/0"`
	F4 *myFloat  `attr:"u/float/identity,identity,ignoreempty"`
	F5 string    `attr:"u/str/0"`
}

type h8 struct {
	F0 uint64           `attr:"sys/db/id"`
	F1 *bool            `attr:"u/bool/1"`
	F2 time.Time        `attr:"u/inst/1,ignoreempty"`
	F3 []myBool         `attr:"u/list/bool,value=u/item/bool"`
	F4 *int             `attr:"u/int/1"`
	F5 map[myString]*h7 `attr:"u/map/str,key=u/str/0"`
	F6 h6               `attr:"u/ref/2"`
	F7 string           `attr:"u/str/0"`
	F8 *string          `attr:"u/str/2"`
}

type h9 struct {
	F0 float64    `attr:"u/float/2"`
	F1 *string    `attr:"u/str/1"`
	F2 uint64     `attr:"sys/db/id"`
	F3 *bool      `attr:"u/bool/identity,identity"`
	F4 h7         `attr:"u/ref/1"`
	F5 *time.Time `attr:"u/inst/identity,identity"`
	F6 float64    `attr:"u/float/0"`
}

type h10 struct {
	F0 bool       `attr:"u/bool/1"`
	F1 *int       `attr:"u/int/1,ignoreempty"`
	F2 *time.Time `attr:"u/inst/2,ignoreempty"`
	F3 string     `attr:"u/str/1,ignoreempty"`
	F4 []h8       `attr:"u/slice/1"`
	F5 float64    `attr:"u/float/0"`
}

type h11 struct {
	F0  *float64       `attr:"u/float/2"`
	F1  uint64         `attr:"sys/db/id"`
	F2  myString       `attr:"u/str/2"`
	F3  int            `attr:"u/int/0"`
	F4  *time.Time     `attr:"u/inst/unique,unique,ignoreempty"`
	F5  *string        `attr:"u/str/unique,ignoreempty,unique"`
	F6  bool           `attr:"u/bool/1"`
	F7  *time.Time     `attr:"u/inst/2,ignoreempty"`
	F8  int            `attr:"u/int/1,ignoreempty"`
	F9  map[myFloat]h5 `attr:"u/map/float,key=u/float/0"`
	F10 h10            `attr:"u/ref/0"`
	F11 *myString      `attr:"u/str/1,ignoreempty"`
	F12 *bool          `attr:"u/bool/identity,identity"`
	F13 myFloat        `attr:"u/float/1"`
}

type h12 struct {
	F0 float64        `attr:"u/float/0"`
	F1 myString       `attr:"u/str/1"`
	F2 map[myInt]*h11 `attr:"u/map/int,key=u/int/0"`
	F3 float64        `attr:"u/float/1,ignoreempty"`
	F4 uint64         `attr:"sys/db/id"`
	F5 []h6           `attr:"u/slice/2"`
	F6 *h6            `attr:"u/ref/0"`
	F7 []myFloat      `attr:"u/list/float,value=u/item/float"`
}

type h13 struct {
	F0 time.Time        `attr:"u/inst/1"`
	F1 myBool           `attr:"u/bool/2,ignoreempty"`
	F2 map[myFloat]*h12 `attr:"u/map/float,key=u/float/0"`
	F3 *myFloat         `attr:"u/float/unique,ignoreempty,unique"`
	F4 []h10            `attr:"u/slice/0"`
	F5 *h13             `attr:"u/ref/2"`
	F6 float64          `attr:"u/float/0"`
	F7 *string          `attr:"u/str/1,ignoreempty"`
	F8 h8               `attr:"u/ref/0"`
}

type h14 struct {
	F0 map[string]*h8 `attr:"u/map/str,key=u/str/0"`
	F1 h13            `attr:"u/ref/1"`
	F2 *int           `attr:"u/int/1,ignoreempty"`
	F3 myFloat        `attr:"u/float/2"`
	F4 *time.Time     `attr:"u/inst/2,ignoreempty"`
	F5 *time.Time     `attr:"u/inst/1"`
	F6 int            `attr:"u/int/0"`
}

type h15 struct {
	F0 myBool     `attr:"u/bool/2,ignoreempty"`
	F1 myFloat    `attr:"u/float/1,ignoreempty"`
	F2 *myBool    `attr:"u/bool/identity,identity"`
	F3 int        `attr:"u/int/2"`
	F4 int        `attr:"u/int/0"`
	F5 h12        `attr:"u/ref/2"`
	F6 uint64     `attr:"sys/db/id"`
	F7 *string    `attr:"u/str/1,ignoreempty"`
	F8 *time.Time `attr:"u/inst/2,ignoreempty"`
}

type h16 struct {
	F0 *string      `attr:"u/str/1,ignoreempty"`
	F1 *float64     `attr:"u/float/2"`
	F2 map[int]*h15 `attr:"u/map/int,key=u/int/0"`
	F3 []time.Time  `attr:"u/list/inst,value=u/item/inst"`
	F4 float64      `attr:"u/float/0"`
	F5 *h14         `attr:"u/ref/0"`
	F6 *h16         `attr:"u/ref/3"`
}

type h17 struct {
	F0 map[float64]h12 `attr:"u/map/float,key=u/float/0"`
	F1 string          `attr:"u/str/unique,unique"`
	F2 myFloat         `attr:"u/float/unique,unique"`
	F3 myString        `attr:"u/str/2"`
	F4 uint64          `attr:"sys/db/id"`
	F5 float64         `attr:"u/float/0"`
	F6 *myString       `attr:"u/str/identity,identity"`
	F7 float64         `attr:"u/float/1,ignoreempty"`
	F8 time.Time       `attr:"u/inst/1"`
}

type h18 struct {
	F0 bool            `attr:"u/bool/2,ignoreempty"`
	F1 *h12            `attr:"u/ref/1"`
	F2 *int            `attr:"u/int/2,ignoreempty"`
	F3 int             `attr:"u/int/0"`
	F4 map[myFloat]h12 `attr:"u/map/float,key=u/float/0"`
	F5 []myFloat       `attr:"u/list/float,value=u/item/float"`
	F6 float64         `attr:"u/float/1,ignoreempty"`
}

type h19 struct {
	F0 int        `attr:"u/int/0"`
	F1 *bool      `attr:"u/bool/unique,unique,ignoreempty"`
	F2 *time.Time `attr:"u/inst/identity,identity"`
	F3 []h16      `attr:"u/slice/0"`
	F4 *bool      `attr:"u/bool/1"`
	F5 *bool      `attr:"u/bool/2,ignoreempty"`
	F6 *h17       `attr:"u/ref/0"`
	F7 uint64     `attr:"sys/db/id"`
	F8 *h19       `attr:"u/ref/1"`
	F9 *int       `attr:"u/int/unique,unique,ignoreempty"`
}

type h20 struct {
	F0 *time.Time     `attr:"u/inst/2"`
	F1 *int           `attr:"u/int/2,ignoreempty"`
	F2 *myFloat       `attr:"u/float/1,ignoreempty"`
	F3 myFloat        `attr:"u/float/2"`
	F4 map[myInt]*h19 `attr:"u/map/int,key=u/int/0"`
	F5 []h14          `attr:"u/slice/1"`
	F6 *time.Time     `attr:"u/inst/1,ignoreempty"`
	F7 []string       `attr:"u/list/str,value=u/item/str"`
	F8 uint64         `attr:"sys/db/id"`
	F9 float64        `attr:"u/float/0"`
}

type h21 struct {
	F0  float64   `attr:"u/float/0"`
	F1  *h21      `attr:"u/ref/1"`
	F2  time.Time `attr:"u/inst/identity,identity,ignoreempty"`
	F3  uint64    `attr:"sys/db/id"`
	F4  time.Time `attr:"u/inst/1,ignoreempty"`
	F5  *int      `attr:"u/int/2"`
	F6  int       `attr:"u/int/1"`
	F7  *int      `attr:"u/int/identity,identity"`
	F8  *myFloat  `attr:"u/float/2,ignoreempty"`
	F9  *myString `attr:"u/str/1"`
	F10 time.Time `attr:"u/inst/2,ignoreempty"`
}

type h22 struct {
	F0 []int      `attr:"u/list/int,value=u/item/int"`
	F1 *int       `attr:"u/int/1,ignoreempty"`
	F2 *time.Time `attr:"u/inst/2"`
	F3 myFloat    `attr:"u/float/2"`
	F4 int        `attr:"u/int/0"`
	F5 uint64     `attr:"sys/db/id"`
	F6 *time.Time `attr:"u/inst/1,ignoreempty"`
}

type h23 struct {
	F0 h21       `attr:"u/ref/1"`
	F1 string    `attr:"u/str/1"`
	F2 *float64  `attr:"u/float/1"`
	F3 *string   `attr:"u/str/unique,ignoreempty,unique"`
	F4 int       `attr:"u/int/1"`
	F5 time.Time `attr:"u/inst/2,ignoreempty"`
	F6 float64   `attr:"u/float/0"`
}

type h24 struct {
	F0 *myString    `attr:"u/str/1"`
	F1 *time.Time   `attr:"u/inst/2,ignoreempty"`
	F2 time.Time    `attr:"u/inst/1,ignoreempty"`
	F3 string       `attr:"u/str/0"`
	F4 map[int]*h18 `attr:"u/map/int,key=u/int/0"`
	F5 uint64       `attr:"sys/db/id"`
	F6 *h21         `attr:"u/ref/3"`
	F7 []h22        `attr:"u/slice/2"`
	F8 []time.Time  `attr:"u/list/inst,value=u/item/inst"`
	F9 int          `attr:"u/int/2,ignoreempty"`
}

type h25 struct {
	F0 *float64         `attr:"u/float/1"`
	F1 map[myFloat]*h23 `attr:"u/map/float,key=u/float/0"`
	F2 *time.Time       `attr:"u/inst/1"`
	F3 myInt            `attr:"u/int/unique,unique"`
	F4 *h23             `attr:"u/ref/2"`
	F5 *myBool          `attr:"u/bool/2"`
	F6 string           `attr:"u/str/0"`
	F7 uint64           `attr:"sys/db/id"`
}

type h26 struct {
	F0 []myFloat     `attr:"u/list/float,value=u/item/float"`
	F1 map[myInt]h22 `attr:"u/map/int,key=u/int/0"`
	F2 string        `attr:"u/str/0"`
	F3 uint64        `attr:"sys/db/id"`
	F4 bool          `attr:"u/bool/1"`
	F5 []h22         `attr:"u/slice/0"`
	F6 bool          `attr:"u/bool/2,ignoreempty"`
}

type h27 struct {
	F0 string           `attr:"u/str/2,ignoreempty"`
	F1 int              `attr:"u/int/unique,unique,ignoreempty"`
	F2 float64          `attr:"u/float/0"`
	F3 *h27             `attr:"u/ref/1"`
	F4 *h21             `attr:"u/ref/0"`
	F5 *string          `attr:"u/str/identity,identity,ignoreempty"`
	F6 time.Time        `attr:"u/inst/1"`
	F7 *bool            `attr:"u/bool/1,ignoreempty"`
	F8 map[float64]*h21 `attr:"u/map/float,key=u/float/0"`
}

type h28 struct {
	F0 time.Time       `attr:"u/inst/2"`
	F1 *h27            `attr:"u/ref/0"`
	F2 *bool           `attr:"u/bool/2,ignoreempty"`
	F3 map[string]*h25 `attr:"u/map/str,key=u/str/0"`
	F4 string          `attr:"u/str/0"`
}

type h29 struct {
	F0 uint64     `attr:"sys/db/id"`
	F1 string     `attr:"u/str/0"`
	F2 bool       `attr:"u/bool/2,ignoreempty"`
	F3 *h29       `attr:"u/ref/3"`
	F4 time.Time  `attr:"u/inst/identity,identity"`
	F5 string     `attr:"u/str/1"`
	F6 int        `attr:"u/int/identity,identity"`
	F7 *time.Time `attr:"u/inst/2,ignoreempty"`
	F8 *bool      `attr:"u/bool/1,ignoreempty"`
}

type h30 struct {
	F0 float64 `attr:"u/float/0"`
	F1 int     `attr:"u/int/2"`
	F2 float64 `attr:"u/float/1"`
	F3 myInt   `attr:"u/int/1,ignoreempty"`
	F4 string  `attr:"u/str/2,ignoreempty"`
	F5 string  `attr:"u/str/1"`
	F6 uint64  `attr:"sys/db/id"`
	F7 []h26   `attr:"u/slice/1"`
	F8 float64 `attr:"u/float/2"`
}

type h31 struct {
	F0  *int            `attr:"u/int/1"`
	F1  []h30           `attr:"u/slice/2"`
	F2  []myBool        `attr:"u/list/bool,value=u/item/bool"`
	F3  *myFloat        `attr:"u/float/1,ignoreempty"`
	F4  float64         `attr:"u/float/2,ignoreempty"`
	F5  float64         `attr:"u/float/0"`
	F6  string          `attr:"u/str/1"`
	F7  *string         `attr:"u/str/2,ignoreempty"`
	F8  *time.Time      `attr:"u/inst/2"`
	F9  time.Time       `attr:"u/inst/1,ignoreempty"`
	F10 map[float64]h30 `attr:"u/map/float,key=u/float/0"`
	F11 myFloat         `attr:"u/float/unique,ignoreempty,unique"`
}

type h32 struct {
	F0 *myFloat   `attr:"u/float/2,ignoreempty"`
	F1 *time.Time `attr:"u/inst/1,ignoreempty"`
	F2 int        `attr:"u/int/1,ignoreempty"`
	F3 *bool      `attr:"u/bool/2"`
	F4 h26        `attr:"u/ref/3"`
	F5 string     `attr:"u/str/0"`
	F6 uint64     `attr:"sys/db/id"`
	F7 myString   `attr:"u/str/2,ignoreempty"`
}

type h33 struct {
	F0 string            `attr:"u/str/1"`
	F1 h29               `attr:"u/ref/3"`
	F2 time.Time         `attr:"u/inst/1"`
	F3 bool              `attr:"u/bool/identity,ignoreempty,identity"`
	F4 float64           `attr:"u/float/0"`
	F5 bool              `attr:"u/bool/2"`
	F6 map[myString]*h28 `attr:"u/map/str,key=u/str/0"`
}

type h34 struct {
	F0 *time.Time `attr:"u/inst/2"`
	F1 *myString  `attr:"u/str/1,ignoreempty"`
	F2 *h29       `attr:"u/ref/0"`
	F3 int        `attr:"u/int/1"`
	F4 myString   `attr:"u/str/2,ignoreempty"`
	F5 float64    `attr:"u/float/0"`
}

type h35 struct {
	F0 float64        `attr:"u/float/2,ignoreempty"`
	F1 map[string]h29 `attr:"u/map/str,key=u/str/0"`
	F2 string         `attr:"u/str/identity,identity,ignoreempty"`
	F3 h30            `attr:"u/ref/3"`
	F4 int            `attr:"u/int/0"`
	F5 uint64         `attr:"sys/db/id"`
	F6 string         `attr:"u/str/1"`
}

type h36 struct {
	F0 []h30            `attr:"u/slice/1"`
	F1 *string          `attr:"u/str/1,ignoreempty"`
	F2 h32              `attr:"u/ref/1"`
	F3 []myInt          `attr:"u/list/int,value=u/item/int"`
	F4 string           `attr:"u/str/0"`
	F5 map[float64]*h33 `attr:"u/map/float,key=u/float/0"`
}

type h37 struct {
	F0  *int       `attr:"u/int/1,ignoreempty"`
	F1  *time.Time `attr:"u/inst/1,ignoreempty"`
	F2  *float64   `attr:"u/float/identity,identity"`
	F3  uint64     `attr:"sys/db/id"`
	F4  h36        `attr:"u/ref/1"`
	F5  []h34      `attr:"u/slice/1"`
	F6  *float64   `attr:"u/float/2,ignoreempty"`
	F7  *myFloat   `attr:"u/float/1"`
	F8  time.Time  `attr:"u/inst/2"`
	F9  string     `attr:"u/str/unique,unique"`
	F10 myString   `attr:"u/str/2"`
	F11 string     `attr:"u/str/0"`
}

type h38 struct {
	F0 int         `attr:"u/int/2"`
	F1 int         `attr:"u/int/1,ignoreempty"`
	F2 *myString   `attr:"u/str/1,ignoreempty"`
	F3 float64     `attr:"u/float/0"`
	F4 *h35        `attr:"u/ref/2"`
	F5 []time.Time `attr:"u/list/inst,value=u/item/inst"`
}

type h39 struct {
	F0 *string       `attr:"u/str/2"`
	F1 uint64        `attr:"sys/db/id"`
	F2 float64       `attr:"u/float/identity,identity,ignoreempty"`
	F3 *bool         `attr:"u/bool/1"`
	F4 myInt         `attr:"u/int/identity,identity,ignoreempty"`
	F5 *float64      `attr:"u/float/2,ignoreempty"`
	F6 map[myInt]h35 `attr:"u/map/int,key=u/int/0"`
	F7 bool          `attr:"u/bool/2,ignoreempty"`
	F8 *myInt        `attr:"u/int/2,ignoreempty"`
	F9 int           `attr:"u/int/0"`
}

type w0 struct {
	F0  time.Time `attr:"v/inst/10"`
	F1  string    `attr:"v/str/15"`
	F2  float64   `attr:"v/float/24"`
	F3  []int     `attr:"u/list/int,value=u/item/int"`
	F4  myBool    `attr:"v/bool/22"`
	F5  time.Time `attr:"v/inst/23"`
	F6  myID      `attr:"sys/db/id"`
	F7  string    `attr:"u/str/0"`
	F8  string    `attr:"v/str/16"`
	F9  time.Time `attr:"v/inst/18"`
	F10 float64   `attr:"v/float/5"`
	F11 string    `attr:"u/str/00"`
	F12 bool      `attr:"v/bool/8"`
	F13 int       `attr:"v/int/7"`
	F14 myInt     `attr:"v/int/20"`
	F15 time.Time `attr:"v/inst/7"`
	F16 bool      `attr:"v/bool/19,ignoreempty"`
	F17 string    `attr:"U/str/0"`
	F18 string    `attr:"v/str/1"`
	F19 g3        `attr:"v/ref/0"`
	F20 bool      `attr:"v/bool/9"`
	F21 int       `attr:"v/int/22"`
	F22 int       `attr:"v/int/14"`
	F23 float64   `attr:"v/float/16"`
	F24 bool      `attr:"v/bool/12"`
	F25 string    `attr:"u/str/0/"`
	F26 int       `attr:"u/int/0x"`
	F27 int       `attr:"v/int/8"`
	F28 time.Time `attr:"v/inst/9"`
	F29 myBool    `attr:"v/bool/4"`
	F30 bool      `attr:"v/bool/20"`
	F31 myBool    `attr:"v/bool/24"`
	F32 string    `attr:"v/str/2"`
	F33 float64   `attr:"v/float/18"`
}

type w1 struct {
	F0  float64   `attr:"v/float/12"`
	F1  float64   `attr:"v/float/0"`
	F2  int       `attr:"v/int/0"`
	F3  int       `attr:"v/int/4"`
	F4  float64   `attr:"v/float/15"`
	F5  float64   `attr:"v/float/7"`
	F6  int       `attr:"u/int/0"`
	F7  float64   `attr:"v/float/3,ignoreempty"`
	F8  time.Time `attr:"v/inst/4"`
	F9  int       `attr:"v/int/23"`
	F10 bool      `attr:"v/bool/19,ignoreempty"`
	F11 time.Time `attr:"v/inst/18"`
	F12 string    `attr:"v/str/13"`
	F13 string    `attr:"u/Str/0,ignoreempty"`
	F14 *h7       `attr:"v/ref/2"`
	F15 time.Time `attr:"v/inst/6"`
	F16 time.Time `attr:"v/inst/15"`
	F17 string    `attr:"v/str/16"`
	F18 time.Time `attr:"v/inst/20"`
	F19 string    `attr:"v/str/24"`
	F20 float64   `attr:"v/float/19"`
	F21 time.Time `attr:"v/inst/13"`
	F22 int       `attr:"v/int/16"`
	F23 time.Time `attr:"v/inst/14,ignoreempty"`
	F24 myInt     `attr:"v/int/15"`
	F25 string    `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F26 string    `attr:"v/str/8"`
	F27 bool      `attr:"v/bool/14"`
	F28 myInt     `attr:"v/int/7"`
	F29 string    `attr:"u/str/0/"`
	F30 time.Time `attr:"v/inst/3"`
	F31 float64   `attr:"u/int/00"`
	F32 int       `attr:"v/int/18"`
	F33 int       `attr:"v/int/22"`
	F34 string    `attr:"/u/str/0"`
	F35 float64   `attr:"v/float/14"`
	F36 int       `attr:"v/int/13"`
	F37 int       `attr:"u/INT/0"`
	F38 myString  `attr:"v/str/3"`
	F39 bool      `attr:"v/bool/6"`
	F40 myFloat   `attr:"v/float/2"`
	F41 int       `attr:"v/int/5"`
	F42 int       `attr:"v/int/10"`
	F43 bool      `attr:"v/bool/23"`
	F44 bool      `attr:"v/bool/11"`
	F45 float64   `attr:"v/float/23"`
	F46 myID      `attr:"sys/db/id"`
	F47 bool      `attr:"v/bool/22"`
	F48 string    `attr:"v/str/23"`
	F49 time.Time `attr:"v/inst/0"`
	F50 time.Time `attr:"v/inst/10"`
	F51 int       `attr:"v/int/20"`
	F52 float64   `attr:"v/float/16"`
	F53 string    `attr:"v/str/6"`
	F54 float64   `attr:"v/float/20"`
	F55 myFloat   `attr:"v/float/11"`
	F56 bool      `attr:"v/bool/16"`
	F57 float64   `attr:"v/float/4"`
	F58 string    `attr:"v/str/4"`
	F59 int       `attr:"v/int/1"`
	F60 time.Time `attr:"v/inst/16"`
	F61 myString  `attr:"v/str/10"`
	F62 string    `attr:"U/str/0"`
	F63 bool      `attr:"v/bool/13"`
	F64 string    `attr:"u/str/é"`
}

type w2 struct {
	F0  string     `attr:"v/str/7"`
	F1  float64    `attr:"v/float/2"`
	F2  time.Time  `attr:"v/inst/7"`
	F3  *int       `attr:"v/int/7"`
	F4  string     `attr:"v/str/0"`
	F5  *int       `attr:"v/int/22"`
	F6  *string    `attr:"v/str/23,ignoreempty"`
	F7  *int       `attr:"v/int/3"`
	F8  *int       `attr:"v/int/19"`
	F9  bool       `attr:"v/bool/11"`
	F10 *float64   `attr:"v/float/12"`
	F11 *float64   `attr:"v/float/15"`
	F12 *float64   `attr:"v/float/9"`
	F13 string     `attr:"sysx/str/0"`
	F14 bool       `attr:"v/bool/20"`
	F15 time.Time  `attr:"v/inst/19,ignoreempty"`
	F16 *time.Time `attr:"v/inst/8"`
	F17 time.Time  `attr:"v/inst/23"`
	F18 myString   `attr:"v/str/10"`
	F19 *string    `attr:"v/str/12"`
	F20 *float64   `attr:"v/float/17"`
	F21 float64    `attr:"v/float/16"`
	F22 *int       `attr:"v/int/8"`
	F23 int        `attr:"v/int/2"`
	F24 *string    `attr:"v/str/1"`
	F25 string     `attr:"u/str/00"`
	F26 *bool      `attr:"v/bool/19"`
	F27 time.Time  `attr:"v/inst/15"`
	F28 myString   `attr:"v/str/22"`
	F29 *string    `attr:"v/str/8"`
	F30 *time.Time `attr:"v/inst/9"`
	F31 myID       `attr:"sys/db/id"`
	F32 *string    `attr:"v/str/20"`
	F33 string     `attr:"v/str/9"`
	F34 string     `attr:"SYS/db/ident"`
	F35 *float64   `attr:"v/float/5"`
	F36 *bool      `attr:"v/bool/15"`
	F37 time.Time  `attr:"v/inst/16"`
	F38 *float64   `attr:"u/int/00"`
	F39 *float64   `attr:"v/float/22,ignoreempty"`
	F40 int        `attr:"v/int/12"`
	F41 []int      `attr:"u/list/int,value=u/item/int"`
	F42 *int       `attr:"u/INT/0"`
	F43 *float64   `attr:"v/float/8"`
	F44 *int       `attr:"v/int/11"`
	F45 int        `attr:"v/int/18"`
	F46 time.Time  `attr:"v/inst/21,ignoreempty"`
	F47 *float64   `attr:"v/float/4"`
	F48 myFloat    `attr:"v/float/13"`
	F49 *bool      `attr:"v/bool/22,ignoreempty"`
	F50 string     `attr:"v/str/17"`
	F51 *string    `attr:"v/str/19"`
	F52 *myInt     `attr:"v/int/24"`
	F53 *string    `attr:"v/str/15"`
	F54 *float64   `attr:"v/float/7"`
	F55 string     `attr:"v/str/3"`
	F56 bool       `attr:"v/bool/16,ignoreempty"`
	F57 float64    `attr:"u/float/0"`
	F58 *int       `attr:"v/int/20"`
	F59 *string    `attr:"v/str/6"`
	F60 int        `attr:"v/int/21"`
	F61 *time.Time `attr:"v/inst/3"`
	F62 time.Time  `attr:"v/inst/1"`
	F63 *bool      `attr:"v/bool/7"`
	F64 time.Time  `attr:"v/inst/5"`
	F65 *float64   `attr:"v/float/21"`
	F66 int        `attr:"v/int/16"`
	F67 *g4        `attr:"v/ref/0"`
	F68 *string    `attr:"v/str/4"`
}

type w3 struct {
	F0  string    `attr:"u/str/0"`
	F1  time.Time `attr:"v/inst/2"`
	F2  float64   `attr:"v/float/23"`
	F3  time.Time `attr:"v/inst/18"`
	F4  string    `attr:"u//str/0"`
	F5  time.Time `attr:"v/inst/20"`
	F6  string    `attr:"v/str/11"`
	F7  int       `attr:"v/int/1"`
	F8  int       `attr:"v/int/12"`
	F9  string    `attr:"u/Int/1"`
	F10 string    `attr:"v/str/8"`
	F11 int       `attr:"v/int/8"`
	F12 time.Time `attr:"v/inst/22"`
	F13 myInt     `attr:"v/int/15"`
	F14 string    `attr:"u/str/0 "`
	F15 time.Time `attr:"v/inst/15"`
	F16 int       `attr:"v/int/18"`
	F17 int       `attr:"u/int/0x"`
	F18 string    `attr:"v/str/1"`
	F19 string    `attr:"v/str/23"`
	F20 time.Time `attr:"v/inst/10"`
	F21 string    `attr:"u/Str/0"`
	F22 int       `attr:"v/int/20"`
	F23 float64   `attr:"v/float/17"`
	F24 float64   `attr:"v/float/5"`
	F25 time.Time `attr:"v/inst/24,ignoreempty"`
	F26 time.Time `attr:"v/inst/23"`
	F27 float64   `attr:"v/float/10"`
	F28 myFloat   `attr:"v/float/2"`
	F29 string    `attr:"v/str/19"`
	F30 float64   `attr:"v/float/18"`
	F31 float64   `attr:"v/float/6"`
	F32 int       `attr:"v/int/11"`
	F33 time.Time `attr:"v/inst/11"`
	F34 bool      `attr:"v/bool/8"`
	F35 string    `attr:"v/str/13"`
	F36 time.Time `attr:"v/inst/17"`
	F37 int       `attr:"u/INT/0"`
	F38 int       `attr:"v/int/4"`
	F39 string    `attr:"v/str/2"`
	F40 string    `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F41 bool      `attr:"v/bool/3"`
	F42 myString  `attr:"v/str/7"`
	F43 time.Time `attr:"v/inst/4"`
	F44 int       `attr:"v/int/14"`
	F45 float64   `attr:"v/float/3"`
	F46 myString  `attr:"u/str/00"`
	F47 float64   `attr:"v/float/22"`
	F48 myString  `attr:"v/str/22"`
	F49 int       `attr:"v/int/24"`
	F50 int       `attr:"v/int/19"`
	F51 bool      `attr:"v/bool/20"`
	F52 time.Time `attr:"v/inst/8,ignoreempty"`
	F53 bool      `attr:"v/bool/19"`
	F54 float64   `attr:"v/float/13"`
	F55 bool      `attr:"v/bool/15"`
	F56 time.Time `attr:"v/inst/1"`
	F57 time.Time `attr:"v/inst/0"`
	F58 myBool    `attr:"v/bool/11,ignoreempty"`
	F59 float64   `attr:"v/float/20"`
	F60 string    `attr:" u/str/0"`
	F61 float64   `attr:"v/float/15"`
	F62 myString  `attr:"v/str/12"`
	F63 bool      `attr:"v/bool/0"`
	F64 bool      `attr:"v/bool/5,ignoreempty"`
	F65 int       `attr:"v/int/0"`
	F66 int       `attr:"v/int/10"`
	F67 bool      `attr:"v/bool/23,ignoreempty"`
	F68 uint64    `attr:"sys/db/id"`
	F69 myString  `attr:"SYS/db/ident"`
	F70 bool      `attr:"v/bool/17"`
	F71 string    `attr:"u/str/é"`
}

type w4 struct {
	F0  int       `attr:"v/int/7"`
	F1  int       `attr:"v/int/6"`
	F2  float64   `attr:"v/float/9"`
	F3  time.Time `attr:"v/inst/4"`
	F4  string    `attr:"v/str/12"`
	F5  myString  `attr:" u/str/0"`
	F6  int       `attr:"v/int/24"`
	F7  string    `attr:"sysx/str/0"`
	F8  time.Time `attr:"v/inst/1"`
	F9  string    `attr:"v/str/13"`
	F10 *g4       `attr:"v/ref/0"`
	F11 myFloat   `attr:"v/float/11"`
	F12 string    `attr:"u.str.0/"`
	F13 bool      `attr:"v/bool/4"`
	F14 string    `attr:"u/str/é,ignoreempty"`
	F15 g4        `attr:"v/ref/1"`
	F16 float64   `attr:"v/float/4,ignoreempty"`
	F17 float64   `attr:"v/float/13"`
	F18 time.Time `attr:"v/inst/12"`
	F19 string    `attr:"v/str/4"`
	F20 string    `attr:"v/str/18,ignoreempty"`
	F21 bool      `attr:"v/bool/15"`
	F22 string    `attr:"v/str/7,ignoreempty"`
	F23 int       `attr:"v/int/19"`
	F24 time.Time `attr:"v/inst/24"`
	F25 int       `attr:"v/int/15,ignoreempty"`
	F26 myString  `attr:"v/str/20"`
	F27 float64   `attr:"v/float/12"`
	F28 string    `attr:"u/str/0/"`
	F29 float64   `attr:"v/float/2"`
	F30 bool      `attr:"v/bool/11"`
	F31 myInt     `attr:"v/int/21"`
	F32 bool      `attr:"v/bool/12"`
	F33 int       `attr:"v/int/12"`
	F34 bool      `attr:"v/bool/21,ignoreempty"`
	F35 myInt     `attr:"u/INT/0"`
	F36 bool      `attr:"v/bool/20"`
	F37 int       `attr:"v/int/3"`
	F38 float64   `attr:"v/float/10"`
	F39 time.Time `attr:"v/inst/17"`
	F40 myString  `attr:"v/str/17"`
	F41 time.Time `attr:"v/inst/22"`
	F42 time.Time `attr:"v/inst/0"`
	F43 myString  `attr:"v/str/8"`
	F44 string    `attr:"u/Int/1"`
	F45 string    `attr:"u/sтr/0"`
	F46 string    `attr:"v/str/2"`
	F47 bool      `attr:"v/bool/10"`
	F48 string    `attr:"u/str/0"`
	F49 int       `attr:"v/int/8"`
	F50 time.Time `attr:"v/inst/10"`
	F51 string    `attr:"v/str/23"`
	F52 float64   `attr:"v/float/3"`
	F53 float64   `attr:"v/float/7"`
	F54 string    `attr:"U/str/0"`
	F55 float64   `attr:"v/float/15"`
	F56 string    `attr:"v/str/6"`
	F57 string    `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F58 string    `attr:"v/str/10"`
	F59 string    `attr:"v/str/16"`
	F60 int       `attr:"v/int/0"`
	F61 int       `attr:"v/int/9"`
	F62 time.Time `attr:"v/inst/15"`
	F63 time.Time `attr:"v/inst/2"`
	F64 time.Time `attr:"v/inst/11"`
	F65 float64   `attr:"v/float/20"`
	F66 time.Time `attr:"v/inst/6"`
	F67 int       `attr:"v/int/5"`
	F68 time.Time `attr:"v/inst/13"`
	F69 myBool    `attr:"v/bool/2"`
	F70 int       `attr:"v/int/14"`
	F71 string    `attr:"v/str/11"`
	F72 time.Time `attr:"v/inst/20"`
	F73 time.Time `attr:"v/inst/14,ignoreempty"`
	F74 string    `attr:"v/str/0"`
	F75 bool      `attr:"v/bool/9"`
	F76 string    `attr:"v/str/15"`
	F77 myFloat   `attr:"v/float/19"`
	F78 bool      `attr:"v/bool/16"`
	F79 string    `attr:"u/str/é"`
	F80 int       `attr:"v/int/20,ignoreempty"`
	F81 string    `attr:"v/str/9"`
	F82 float64   `attr:"v/float/5,ignoreempty"`
	F83 int       `attr:"v/int/22"`
	F84 bool      `attr:"v/bool/13"`
	F85 bool      `attr:"v/bool/8"`
	F86 float64   `attr:"v/float/23"`
	F87 time.Time `attr:"v/inst/7"`
	F88 int       `attr:"v/int/17"`
	F89 time.Time `attr:"v/inst/23"`
	F90 string    `attr:"v/str/19,ignoreempty"`
	F91 string    `attr:"v/str/21"`
	F92 string    `attr:"u//str/0"`
}

type w5 struct {
	F0   *float64   `attr:"v/float/5"`
	F1   *h7        `attr:"v/ref/2"`
	F2   time.Time  `attr:"v/inst/11"`
	F3   float64    `attr:"u/float/0"`
	F4   bool       `attr:"v/bool/6"`
	F5   int        `attr:"v/int/13,ignoreempty"`
	F6   string     `attr:"v/str/1"`
	F7   time.Time  `attr:"v/inst/8,ignoreempty"`
	F8   myBool     `attr:"v/bool/4"`
	F9   *myFloat   `attr:"v/float/17"`
	F10  int        `attr:"v/int/6,ignoreempty"`
	F11  string     `attr:"u/str/é"`
	F12  *myBool    `attr:"v/bool/19"`
	F13  int        `attr:"v/int/4"`
	F14  *string    `attr:"v/str/5"`
	F15  bool       `attr:"v/bool/23"`
	F16  *int       `attr:"v/int/2"`
	F17  *time.Time `attr:"v/inst/3"`
	F18  time.Time  `attr:"v/inst/12"`
	F19  float64    `attr:"v/float/2"`
	F20  int        `attr:"v/int/1"`
	F21  *int       `attr:"v/int/21"`
	F22  float64    `attr:"v/float/18"`
	F23  *string    `attr:"v/str/4"`
	F24  int        `attr:"u/int/0x"`
	F25  *time.Time `attr:"v/inst/19"`
	F26  float64    `attr:"v/float/6,ignoreempty"`
	F27  bool       `attr:"v/bool/20,ignoreempty"`
	F28  float64    `attr:"v/float/13"`
	F29  float64    `attr:"v/float/11"`
	F30  time.Time  `attr:"v/inst/18"`
	F31  *time.Time `attr:"v/inst/22"`
	F32  string     `attr:"u/sтr/0"`
	F33  string     `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0,ignoreempty"`
	F34  *time.Time `attr:"v/inst/21"`
	F35  string     `attr:"SYS/db/ident"`
	F36  *bool      `attr:"v/bool/1,ignoreempty"`
	F37  *string    `attr:"v/str/10,ignoreempty"`
	F38  int        `attr:"v/int/11,ignoreempty"`
	F39  string     `attr:"v/str/12"`
	F40  int        `attr:"v/int/10"`
	F41  myString   `attr:"sysx/str/0"`
	F42  float64    `attr:"v/float/3"`
	F43  bool       `attr:"v/bool/12"`
	F44  *time.Time `attr:"v/inst/24"`
	F45  float64    `attr:"v/float/12"`
	F46  *bool      `attr:"v/bool/9"`
	F47  string     `attr:"v/str/22"`
	F48  time.Time  `attr:"v/inst/1"`
	F49  *string    `attr:"v/str/16"`
	F50  *string    `attr:"u/str/00"`
	F51  int        `attr:"v/int/20"`
	F52  float64    `attr:"v/float/22"`
	F53  time.Time  `attr:"v/inst/2,ignoreempty"`
	F54  string     `attr:"u/str/0 "`
	F55  time.Time  `attr:"v/inst/15"`
	F56  bool       `attr:"v/bool/10"`
	F57  float64    `attr:"v/float/10"`
	F58  bool       `attr:"v/bool/13"`
	F59  string     `attr:"v/str/9"`
	F60  bool       `attr:"v/bool/17"`
	F61  *float64   `attr:"v/float/15"`
	F62  int        `attr:"v/int/23"`
	F63  time.Time  `attr:"v/inst/10"`
	F64  float64    `attr:"v/float/1,ignoreempty"`
	F65  *float64   `attr:"v/float/16"`
	F66  string     `attr:"u/Str/0"`
	F67  *bool      `attr:"v/bool/5"`
	F68  bool       `attr:"v/bool/15"`
	F69  *string    `attr:"u/str/é"`
	F70  int        `attr:"v/int/8"`
	F71  *int       `attr:"v/int/3"`
	F72  g4         `attr:"v/ref/1"`
	F73  float64    `attr:"v/float/7"`
	F74  bool       `attr:"v/bool/24"`
	F75  *bool      `attr:"v/bool/2"`
	F76  string     `attr:"v/str/8"`
	F77  string     `attr:"v/str/23"`
	F78  int        `attr:"v/int/24"`
	F79  *string    `attr:"v/str/14"`
	F80  time.Time  `attr:"v/inst/13"`
	F81  int        `attr:"v/int/12"`
	F82  time.Time  `attr:"v/inst/9"`
	F83  int        `attr:"u/float"`
	F84  string     `attr:"u.str.0/"`
	F85  string     `attr:"v/str/11"`
	F86  string     `attr:"v/str/15"`
	F87  time.Time  `attr:"v/inst/5"`
	F88  float64    `attr:"v/float/4"`
	F89  string     `attr:"v/str/19"`
	F90  int        `attr:"v/int/15"`
	F91  time.Time  `attr:"v/inst/0,ignoreempty"`
	F92  int        `attr:"v/int/14"`
	F93  string     `attr:"u/str/0/"`
	F94  uint64     `attr:"sys/db/id"`
	F95  *int       `attr:"v/int/19,ignoreempty"`
	F96  bool       `attr:"v/bool/22,ignoreempty"`
	F97  float64    `attr:"v/float/20"`
	F98  string     `attr:"v/str/20,ignoreempty"`
	F99  *string    `attr:"v/str/17"`
	F100 float64    `attr:"v/float/21"`
	F101 float64    `attr:"v/float/23"`
	F102 string     `attr:"v/str/24"`
	F103 string     `attr:"u//str/0"`
	F104 string     `attr:"v/str/6"`
	F105 bool       `attr:"v/bool/11"`
	F106 float64    `attr:"u/int/00"`
	F107 int        `attr:"v/int/5"`
	F108 *int       `attr:"v/int/22"`
	F109 int        `attr:"v/int/7"`
	F110 myInt      `attr:"v/int/9,ignoreempty"`
	F111 string     `attr:"v/str/21"`
	F112 bool       `attr:"v/bool/0"`
	F113 bool       `attr:"v/bool/16"`
	F114 *time.Time `attr:"v/inst/23"`
	F115 string     `attr:"U/str/0"`
	F116 myFloat    `attr:"v/float/8"`
	F117 *time.Time `attr:"v/inst/6"`
	F118 int        `attr:"v/int/18"`
	F119 *bool      `attr:"v/bool/21"`
	F120 string     `attr:"u/Int/1"`
	F121 *int       `attr:"v/int/17"`
	F122 float64    `attr:"v/float/24"`
	F123 string     `attr:"v/str/3"`
	F124 float64    `attr:"v/float/14"`
	F125 string     `attr:" u/str/0"`
	F126 bool       `attr:"v/bool/7"`
	F127 *string    `attr:"v/str/7,ignoreempty"`
}

type w6 struct {
	F0   string    `attr:"u/sтr/0,ignoreempty"`
	F1   bool      `attr:"v/bool/23"`
	F2   bool      `attr:"v/bool/8"`
	F3   bool      `attr:"v/bool/14"`
	F4   bool      `attr:"v/bool/20"`
	F5   string    `attr:"SYS/db/ident"`
	F6   int       `attr:"v/int/5"`
	F7   string    `attr:"u/Int/1"`
	F8   bool      `attr:"v/bool/16,ignoreempty"`
	F9   int       `attr:"v/int/18"`
	F10  time.Time `attr:"v/inst/12"`
	F11  bool      `attr:"v/bool/7"`
	F12  string    `attr:"v/str/23"`
	F13  string    `attr:"v/str/17"`
	F14  string    `attr:"sysx/str/0"`
	F15  time.Time `attr:"v/inst/2"`
	F16  int       `attr:"v/int/8"`
	F17  myString  `attr:"/u/str/0"`
	F18  string    `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/1,ignoreempty"`
	F19  []int     `attr:"u/list/int,value=u/item/int"`
	F20  float64   `attr:"v/float/7"`
	F21  bool      `attr:"v/bool/6"`
	F22  int       `attr:"v/int/19"`
	F23  time.Time `attr:"v/inst/8"`
	F24  time.Time `attr:"v/inst/18"`
	F25  string    `attr:"v/str/10"`
	F26  float64   `attr:"v/float/1"`
	F27  int       `attr:"v/int/11"`
	F28  time.Time `attr:"v/inst/20"`
	F29  time.Time `attr:"v/inst/21,ignoreempty"`
	F30  bool      `attr:"v/bool/15"`
	F31  time.Time `attr:"v/inst/4"`
	F32  float64   `attr:"v/float/10"`
	F33  string    `attr:"u/str/00"`
	F34  time.Time `attr:"v/inst/11"`
	F35  time.Time `attr:"v/inst/7"`
	F36  myString  `attr:"u/str/é"`
	F37  myFloat   `attr:"v/float/15"`
	F38  string    `attr:"v/str/5"`
	F39  bool      `attr:"v/bool/9"`
	F40  bool      `attr:"v/bool/1"`
	F41  int       `attr:"v/int/13"`
	F42  float64   `attr:"v/float/2"`
	F43  time.Time `attr:"v/inst/14"`
	F44  float64   `attr:"v/float/13,ignoreempty"`
	F45  int       `attr:"v/int/4"`
	F46  string    `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F47  string    `attr:"v/str/6"`
	F48  float64   `attr:"v/float/0,ignoreempty"`
	F49  time.Time `attr:"v/inst/15"`
	F50  bool      `attr:"v/bool/24"`
	F51  float64   `attr:"v/float/22"`
	F52  string    `attr:"v/str/13"`
	F53  int       `attr:"v/int/3"`
	F54  bool      `attr:"v/bool/21"`
	F55  int       `attr:"v/int/9"`
	F56  int       `attr:"u/float"`
	F57  string    `attr:"v/str/22"`
	F58  time.Time `attr:"v/inst/1"`
	F59  string    `attr:"v/str/0"`
	F60  string    `attr:"u/str/0"`
	F61  w5        `attr:"v/ref/1"`
	F62  float64   `attr:"v/float/18"`
	F63  float64   `attr:"v/float/9"`
	F64  float64   `attr:"v/float/20"`
	F65  int       `attr:"v/int/15"`
	F66  int       `attr:"v/int/23"`
	F67  int       `attr:"v/int/24"`
	F68  float64   `attr:"v/float/24"`
	F69  int       `attr:"v/int/6"`
	F70  time.Time `attr:"v/inst/3"`
	F71  string    `attr:"v/str/1"`
	F72  time.Time `attr:"v/inst/22"`
	F73  string    `attr:"U/str/0"`
	F74  myFloat   `attr:"v/float/19"`
	F75  float64   `attr:"v/float/12"`
	F76  bool      `attr:"v/bool/11"`
	F77  time.Time `attr:"v/inst/9"`
	F78  myInt     `attr:"v/int/14"`
	F79  string    `attr:" u/str/0"`
	F80  int       `attr:"v/int/2"`
	F81  float64   `attr:"v/float/6"`
	F82  time.Time `attr:"v/inst/13"`
	F83  float64   `attr:"v/float/8"`
	F84  time.Time `attr:"v/inst/0,ignoreempty"`
	F85  float64   `attr:"u/int/00"`
	F86  float64   `attr:"v/float/23"`
	F87  bool      `attr:"v/bool/12,ignoreempty"`
	F88  myBool    `attr:"v/bool/13"`
	F89  float64   `attr:"v/float/21"`
	F90  int       `attr:"v/int/0"`
	F91  float64   `attr:"v/float/14,ignoreempty"`
	F92  int       `attr:"v/int/22"`
	F93  float64   `attr:"v/float/11"`
	F94  int       `attr:"v/int/7"`
	F95  float64   `attr:"v/float/16"`
	F96  bool      `attr:"v/bool/19"`
	F97  string    `attr:"v/str/15"`
	F98  myFloat   `attr:"v/float/17"`
	F99  myString  `attr:"v/str/9"`
	F100 bool      `attr:"v/bool/18"`
	F101 int       `attr:"v/int/20"`
	F102 float64   `attr:"v/float/3"`
	F103 time.Time `attr:"v/inst/24"`
	F104 bool      `attr:"v/bool/2"`
	F105 string    `attr:"v/str/19"`
	F106 myString  `attr:"v/str/12"`
	F107 time.Time `attr:"v/inst/6"`
	F108 time.Time `attr:"v/inst/16"`
	F109 string    `attr:"v/str/20"`
	F110 string    `attr:"v/str/2"`
	F111 string    `attr:"v/str/7"`
	F112 string    `attr:"u/str/0 "`
	F113 uint64    `attr:"sys/db/id"`
	F114 string    `attr:"v/str/3"`
	F115 int       `attr:"v/int/12"`
	F116 float64   `attr:"v/float/5"`
	F117 string    `attr:"u/str/é"`
	F118 bool      `attr:"v/bool/5"`
	F119 int       `attr:"v/int/10"`
	F120 string    `attr:"u.str.0/"`
	F121 float64   `attr:"v/float/4"`
	F122 int       `attr:"u/INT/0"`
	F123 bool      `attr:"v/bool/10"`
	F124 string    `attr:"v/str/14,ignoreempty"`
	F125 string    `attr:"v/str/8"`
	F126 string    `attr:"u/Str/0"`
	F127 time.Time `attr:"v/inst/23"`
}

type k0 struct {
	F0 float64  `attr:"u/float/0"`
	F1 *float64 `attr:"u/int/00,ignoreempty"`
	F2 string   `attr:"u.str.0/,ignoreempty"`
	F3 *int     `attr:"u/float"`
	F4 myID     `attr:"sys/db/id"`
}

type k1 struct {
	F0 int     `attr:"u/int/0"`
	F1 int     `attr:"u/INT/0"`
	F2 g8      `attr:"v/ref/1"`
	F3 uint64  `attr:"sys/db/id"`
	F4 k0      `attr:"v/ref/2"`
	F5 float64 `attr:"u/int/00"`
	F6 string  `attr:"u/sтr/0"`
	F7 *string `attr:"u/str/é"`
	F8 string  `attr:"U/str/0"`
	F9 *string `attr:"u/str/é"`
}

type k2 struct {
	F0  myString `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/1"`
	F1  string   `attr:"u//str/0"`
	F2  string   `attr:"u/str/0/,ignoreempty"`
	F3  *g8      `attr:"v/ref/2"`
	F4  *string  `attr:"u/str/00"`
	F5  string   `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0,ignoreempty"`
	F6  *float64 `attr:"u/int/00"`
	F7  string   `attr:"SYS/db/ident"`
	F8  k1       `attr:"v/ref/4"`
	F9  string   `attr:"u/str/0 "`
	F10 float64  `attr:"u/float/0"`
	F11 *string  `attr:"u/Int/1"`
	F12 myID     `attr:"sys/db/id"`
}

type k3 struct {
	F0 int     `attr:"u/INT/0"`
	F1 []int   `attr:"u/list/int,value=u/item/int"`
	F2 string  `attr:"u/str/é"`
	F3 string  `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F4 float64 `attr:"u/float/0"`
}

type k4 struct {
	F0 h9      `attr:"v/ref/0"`
	F1 *string `attr:" u/str/0"`
	F2 g8      `attr:"v/ref/1"`
	F3 string  `attr:"u/str/é"`
	F4 string  `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F5 float64 `attr:"u/float/0"`
	F6 string  `attr:"/u/str/0,ignoreempty"`
	F7 string  `attr:"u/sтr/0"`
	F8 *string `attr:"U/str/0"`
}

type k5 struct {
	F0  myID     `attr:"sys/db/id"`
	F1  int      `attr:"u/INT/0"`
	F2  string   `attr:"SYS/db/ident"`
	F3  myString `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/1"`
	F4  string   `attr:"u/str/0 ,ignoreempty"`
	F5  int      `attr:"u/int/0"`
	F6  string   `attr:"u/Str/0"`
	F7  string   `attr:"u//str/0"`
	F8  h9       `attr:"v/ref/1"`
	F9  g8       `attr:"v/ref/4"`
	F10 string   `attr:"u.str.0/"`
	F11 float64  `attr:"u/int/00"`
	F12 string   `attr:"u/sтr/0"`
}

type k6 struct {
	F0 *int    `attr:"u/float"`
	F1 *k5     `attr:"v/ref/4"`
	F2 int     `attr:"u/int/0x,ignoreempty"`
	F3 uint64  `attr:"sys/db/id"`
	F4 *string `attr:"u/str/0 "`
	F5 string  `attr:"u/str/0"`
	F6 []int   `attr:"u/list/int,value=u/item/int"`
}

type k7 struct {
	F0 myString `attr:"U/str/0"`
	F1 int      `attr:"u/INT/0"`
	F2 *string  `attr:"u/str/é"`
	F3 myString `attr:"u.str.0/"`
	F4 string   `attr:"u/str/00"`
	F5 myID     `attr:"sys/db/id"`
	F6 string   `attr:"u/str/é"`
	F7 int      `attr:"u/int/0"`
}

type k8 struct {
	F0  string  `attr:"U/str/0"`
	F1  string  `attr:"u/str/é"`
	F2  k7      `attr:"v/ref/0"`
	F3  *int    `attr:"u/float"`
	F4  *string `attr:"u/str/0 "`
	F5  uint64  `attr:"sys/db/id"`
	F6  *string `attr:"u/str/é"`
	F7  *string `attr:"u/Str/0"`
	F8  string  `attr:"u/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/long/0"`
	F9  *string `attr:" u/str/0"`
	F10 string  `attr:"u/str/0"`
	F11 *string `attr:"u/Int/1"`
}

type k9 struct {
	F0 string `attr:"sysx/str/0"`
	F1 string `attr:"u/str/0 "`
	F2 string `attr:"u/str/0"`
	F3 string `attr:" u/str/0"`
}

type Embed0 struct {
	E0 string `attr:"u/str/0"`
	E1 int    `attr:"u/int/1"`
	E2 *bool  `attr:"u/bool/0"`
}

type Embed1 struct {
	ID uint64  `attr:"sys/db/id"`
	F0 float64 `attr:"u/float/0"`
	E3 string  `attr:"u/str/1"`
}

type Embed2 struct {
	E4 time.Time `attr:"u/inst/0"`
	Embed0
	*Embed1
}

type Malformed0 struct {
	F0 string   `attr:"u/str/0,bogus"`
	E5 chan int `attr:"u/int/0"`
}

type Malformed1 struct {
	E6 **string       `attr:"u/str/2,identity,unique"`
	E7 map[int]string `attr:"u/map/str,key=u/str/0"`
}

type Malformed2 struct {
	Malformed1
	E8 string `attr:"sys/db/id"`
	ID uint32 `attr:"sys/db/id"`
}

type e0 struct {
	G2      *bool `attr:"u/bool/0"`
	F0      int   `attr:"u/int/0"`
	*Embed2 `json:"attr:u/str/2"`
	G1      *string `attr:"u/str/2"`
	Not0    string  `ATTR:"u/int/0"`
	ID      uint64  `attr:"sys/db/id"`
	G0      *int    `attr:"u/int/1"`
	*Embed1 `xattr:"u/ref/3" attrs:"x,bogus"`
}

type e1 struct {
	Not0 Embed0 `db:"u/str/0,identity" attr-:"x"`
	F0   int    `attr:"u/int/0"`
	Embed0
	Malformed1
	S  []e0       `attr:"u/slice/0"`
	G1 *time.Time `attr:"u/inst/1"`
	Malformed2
	R  h6   `attr:"u/ref/3"`
	G0 bool `attr:"u/bool/0"`
}

type e2 struct {
	F0          float64 `attr:"u/float/0"`
	G0          int     `attr:"u/int/1"`
	*Malformed0 `xattr:"u/ref/3" attrs:"x,bogus"`
	G1          *string `attr:"u/str/2"`
	*Embed1     `xattr:"u/ref/3" attrs:"x,bogus"`
	R           *e1 `attr:"u/ref/3"`
}

type e3 struct {
	Malformed2 `json:"attr:u/str/2"`
	G1         time.Time `attr:"u/inst/2"`
	Malformed1
	G0   int     `attr:"u/int/0"`
	R    h6      `attr:"u/ref/3"`
	Not0 string  `json:"attr:\"u/str/0\""`
	Not1 *string `ATTR:"u/int/0"`
	F0   string  `attr:"u/str/0"`
}

type e4 struct {
	*Malformed0 `Attr:"u/ref/0"`
	G1          *time.Time `attr:"u/inst/0"`
	F0          string     `attr:"u/str/0"`
	Not0        uint32     `xattr:"u/str/0"`
	G2          *float64   `attr:"u/float/1"`
}

type e5 struct {
	Not0        []int8 `xattr:"u/str/0"`
	S           []h6   `attr:"u/slice/1"`
	F0          string `attr:"u/str/0"`
	R           *e4    `attr:"u/ref/3"`
	*Malformed0 `Attr:"u/ref/0"`
	Embed2      `attr:"u/ref/1"`
}

type e6 struct {
	ID         uint64  `attr:"sys/db/id"`
	F0         float64 `attr:"u/float/0"`
	Malformed0 `xattr:"u/ref/3" attrs:"x,bogus"`
	G0         string `attr:"u/str/1"`
	G1         int    `attr:"u/int/2"`
	R          *e3    `attr:"u/ref/3"`
}

type e7 struct {
	R          e3 `attr:"u/ref/3"`
	Malformed2 `json:"attr:u/str/2"`
	Not0       Embed0 `xattr:"u/str/0"`
	Embed0     `attr:"u/ref/0"`
	G0         float64 `attr:"u/float/0"`
	F0         int     `attr:"u/int/0"`
	*Embed1    `xattr:"u/ref/3" attrs:"x,bogus"`
}

type e8 struct {
	F0 float64 `attr:"u/float/0"`
	Embed0
	Malformed1
	ID   uint64 `attr:"sys/db/id"`
	Not0 string `xattr:"u/str/0"`
	Not1 []int8 `xattr:"u/str/0"`
}

type e9 struct {
	Malformed2 `Attr:"u/ref/0"`
	Embed0     `attr:"u/ref/1"`
	F0         float64 `attr:"u/float/0"`
	Not0       *string `db:"u/str/0,identity" attr-:"x"`
	*Embed1    `xattr:"u/ref/3" attrs:"x,bogus"`
	R          *e4        `attr:"u/ref/3"`
	G0         *time.Time `attr:"u/inst/0"`
	ID         uint64     `attr:"sys/db/id"`
}

type e10 struct {
	Not0       []int8  `ATTR:"u/int/0"`
	G1         *string `attr:"u/str/2"`
	Not1       *string `json:"attr:\"u/str/0\""`
	F0         string  `attr:"u/str/0"`
	F1         uint64  `attr:"sys/db/id"`
	R          *e5     `attr:"u/ref/3"`
	G0         bool    `attr:"u/bool/2"`
	Malformed1 `Attr:"u/ref/0"`
	G2         *bool `attr:"u/bool/1"`
}

type e11 struct {
	*Malformed1
	R    *h6    `attr:"u/ref/3"`
	F0   int    `attr:"u/int/0"`
	ID   uint64 `attr:"sys/db/id"`
	G0   *bool  `attr:"u/bool/2"`
	S    []e10  `attr:"u/slice/0"`
	Not1 Embed0 `db:"u/str/0,identity" attr-:"x"`
	Not0 string `db:"u/str/0,identity" attr-:"x"`
	G1   *int   `attr:"u/int/2"`
}

func init() {
	registerFamily[g0](true)
	registerFamily[g1](false)
	registerFamily[g2](true)
	registerFamily[g3](false)
	registerFamily[g4](true)
	registerFamily[g5](false)
	registerFamily[g6](true)
	registerFamily[g7](false)
	registerFamily[g8](true)
	registerFamily[g9](false)
	registerFamily[g10](true)
	registerFamily[g11](false)
	registerFamily[g12](true)
	registerFamily[g13](false)
	registerFamily[g14](true)
	registerFamily[g15](false)
	registerFamily[g16](true)
	registerFamily[g17](false)
	registerFamily[g18](true)
	registerFamily[g19](false)
	registerFamily[g20](true)
	registerFamily[g21](false)
	registerFamily[g22](true)
	registerFamily[g23](false)
	registerFamily[g24](true)
	registerFamily[g25](false)
	registerFamily[g26](true)
	registerFamily[g27](false)
	registerFamily[g28](true)
	registerFamily[g29](false)
	registerFamily[g30](true)
	registerFamily[g31](false)
	registerFamily[g32](true)
	registerFamily[g33](false)
	registerFamily[g34](true)
	registerFamily[g35](false)
	registerFamily[g36](true)
	registerFamily[g37](false)
	registerFamily[g38](true)
	registerFamily[g39](false)
	registerFamily[g40](true)
	registerFamily[g41](false)
	registerFamily[g42](true)
	registerFamily[g43](false)
	registerFamily[g44](true)
	registerFamily[g45](false)
	registerFamily[g46](true)
	registerFamily[g47](false)
	registerFamily[g48](true)
	registerFamily[g49](false)
	registerFamily[g50](true)
	registerFamily[g51](false)
	registerFamily[g52](true)
	registerFamily[g53](false)
	registerFamily[g54](true)
	registerFamily[g55](false)
	registerFamily[g56](true)
	registerFamily[g57](false)
	registerFamily[g58](true)
	registerFamily[g59](false)
	registerFamily[g60](true)
	registerFamily[g61](false)
	registerFamily[g62](true)
	registerFamily[g63](false)
	registerFamily[g64](true)
	registerFamily[g65](false)
	registerFamily[g66](true)
	registerFamily[g67](false)
	registerFamily[g68](true)
	registerFamily[g69](false)
	registerFamily[g70](true)
	registerFamily[g71](false)
	registerFamily[h0](true)
	registerFamily[h1](false)
	registerFamily[h2](true)
	registerFamily[h3](false)
	registerFamily[h4](true)
	registerFamily[h5](false)
	registerFamily[h6](true)
	registerFamily[h7](false)
	registerFamily[h8](true)
	registerFamily[h9](false)
	registerFamily[h10](true)
	registerFamily[h11](false)
	registerFamily[h12](true)
	registerFamily[h13](false)
	registerFamily[h14](true)
	registerFamily[h15](false)
	registerFamily[h16](true)
	registerFamily[h17](false)
	registerFamily[h18](true)
	registerFamily[h19](false)
	registerFamily[h20](true)
	registerFamily[h21](false)
	registerFamily[h22](true)
	registerFamily[h23](false)
	registerFamily[h24](true)
	registerFamily[h25](false)
	registerFamily[h26](true)
	registerFamily[h27](false)
	registerFamily[h28](true)
	registerFamily[h29](false)
	registerFamily[h30](true)
	registerFamily[h31](false)
	registerFamily[h32](true)
	registerFamily[h33](false)
	registerFamily[h34](true)
	registerFamily[h35](false)
	registerFamily[h36](true)
	registerFamily[h37](false)
	registerFamily[h38](true)
	registerFamily[h39](false)
	registerFamily[w0](true)
	registerFamily[w1](true)
	registerFamily[w2](true)
	registerFamily[w3](true)
	registerFamily[w4](true)
	registerFamily[w5](true)
	registerFamily[w6](true)
	registerFamily[k0](true)
	registerFamily[k1](true)
	registerFamily[k2](true)
	registerFamily[k3](true)
	registerFamily[k4](true)
	registerFamily[k5](true)
	registerFamily[k6](true)
	registerFamily[k7](true)
	registerFamily[k8](true)
	registerFamily[k9](true)
	registerFamily[e0](true)
	registerFamily[e1](true)
	registerFamily[e2](true)
	registerFamily[e3](true)
	registerFamily[e4](true)
	registerFamily[e5](true)
	registerFamily[e6](true)
	registerFamily[e7](true)
	registerFamily[e8](true)
	registerFamily[e9](true)
	registerFamily[e10](true)
	registerFamily[e11](true)
	registerFamily[Embed0](true)
	registerFamily[Embed1](true)
	namesakes0()
	namesakes1()
	namesakes2()
	namesakes3()
	namesakes4()
	namesakes5()
	namesakes6()
	namesakes7()
	namesakes8()
	namesakes9()
}
