#!/usr/bin/env python3
"""Writes harness/families.go: struct types over one universe of attributes, so that any
entity may be loaded as any of them. The types are random, but the same every time."""
import os
import random

R = random.Random(20260101)
N = 72
KINDS = ["str", "int", "bool", "float", "inst"]
GO = {"str": "string", "int": "int", "bool": "bool", "float": "float64", "inst": "time.Time"}
NAMED = {"str": "myString", "int": "myInt", "bool": "myBool", "float": "myFloat"}
KEYS = ["str", "int", "float", "bool", "inst"]


def scalar(kind):
    if kind in NAMED and R.random() < 0.12:
        return NAMED[kind]
    return GO[kind]


PROBE = '''// probe has every attribute of the universe.
type probe struct {
	Str0  *string    `attr:"u/str/0"`
	Str1  *string    `attr:"u/str/1"`
	Str2  *string    `attr:"u/str/2"`
	Int0  *int       `attr:"u/int/0"`
	Int1  *int       `attr:"u/int/1"`
	Int2  *int       `attr:"u/int/2"`
	Bool0 *bool      `attr:"u/bool/0"`
	Bool1 *bool      `attr:"u/bool/1"`
	Bool2 *bool      `attr:"u/bool/2"`
	Flo0  *float64   `attr:"u/float/0"`
	Flo1  *float64   `attr:"u/float/1"`
	Flo2  *float64   `attr:"u/float/2"`
	Ins0  *time.Time `attr:"u/inst/0"`
	Ins1  *time.Time `attr:"u/inst/1"`
	Ins2  *time.Time `attr:"u/inst/2"`

	StrI *string    `attr:"u/str/identity"`
	IntI *int       `attr:"u/int/identity"`
	FloI *float64   `attr:"u/float/identity"`
	InsI *time.Time `attr:"u/inst/identity"`
	StrU *string    `attr:"u/str/unique"`
	IntU *int       `attr:"u/int/unique"`
	FloU *float64   `attr:"u/float/unique"`
	InsU *time.Time `attr:"u/inst/unique"`
	BooI *bool      `attr:"u/bool/identity"`
	BooU *bool      `attr:"u/bool/unique"`

	Ref0 map[uint64]*lite `attr:"u/ref/0"`
	Ref1 map[uint64]*lite `attr:"u/ref/1"`
	Ref2 map[uint64]*lite `attr:"u/ref/2"`
	Ref3 map[uint64]*lite `attr:"u/ref/3"`
	Sli0 map[uint64]*lite `attr:"u/slice/0"`
	Sli1 map[uint64]*lite `attr:"u/slice/1"`
	Sli2 map[uint64]*lite `attr:"u/slice/2"`
	MapS map[uint64]*lite `attr:"u/map/str"`
	MapI map[uint64]*lite `attr:"u/map/int"`
	MapB map[uint64]*lite `attr:"u/map/bool"`
	MapF map[uint64]*lite `attr:"u/map/float"`
	MapT map[uint64]*lite `attr:"u/map/inst"`
	LisS map[uint64]*lite `attr:"u/list/str"`
	LisI map[uint64]*lite `attr:"u/list/int"`
	LisB map[uint64]*lite `attr:"u/list/bool"`
	LisF map[uint64]*lite `attr:"u/list/float"`
	LisT map[uint64]*lite `attr:"u/list/inst"`

	ItmS *string    `attr:"u/item/str"`
	ItmI *int       `attr:"u/item/int"`
	ItmB *bool      `attr:"u/item/bool"`
	ItmF *float64   `attr:"u/item/float"`
	ItmT *time.Time `attr:"u/item/inst"`
	Rank *int       `attr:"sys/db/rank"`

	Ident *string          `attr:"sys/db/ident"`
	Type  map[uint64]*lite `attr:"sys/attr/type"`
	Card  map[uint64]*lite `attr:"sys/attr/cardinality"`
	Uniq  map[uint64]*lite `attr:"sys/attr/unique"`
}
'''

out = []
keysOf = {}  # the kinds by which a map of a type may be keyed


def make(name, plain, recent, plains, kin):
    used = set()
    fields = []

    def add(ident, typ, opts="", fname=None):
        if ident in used:
            return
        used.add(ident)
        fields.append((fname, typ, 'attr:"%s%s"' % (ident, opts)))

    # A plain scalar which is always recorded, so that the entity exists.
    kind = R.choice(["str", "int", "float"])
    add("u/%s/0" % kind, scalar(kind))
    keys = {kind}
    if R.random() < 0.7:
        add("sys/db/id", "uint64")
    for _ in range(R.randrange(0, 6)):
        kind = R.choice(KINDS)
        n = R.randrange(3)
        ident = "u/%s/%d" % (kind, n)
        if ident in used:
            continue
        ptr = R.random() < 0.35
        opts = ",ignoreempty" if R.random() < 0.2 and n > 0 else ""
        if n == 0 and not ptr:
            keys.add(kind)
        add(ident, ("*" if ptr else "") + scalar(kind), opts)
    if not plain:
        for _ in range(R.randrange(0, 3)):
            kind, u = R.choice([("str", "identity"), ("str", "identity"), ("int", "identity"), ("inst", "identity"), ("float", "identity"),
                                ("str", "unique"), ("int", "unique")])
            ptr = R.random() < 0.5
            opts = "," + u
            if R.random() < 0.3:
                opts += ",ignoreempty"
            add("u/%s/%s" % (kind, u), ("*" if ptr else "") + scalar(kind), opts)
    for n in range(4):
        x = R.random()
        if x < 0.2 and recent:
            add("u/ref/%d" % n, R.choice(recent))
        elif x < 0.45:
            add("u/ref/%d" % n, "*" + R.choice(recent + [name, name, kin()]))
    for n in range(3):
        x = R.random()
        cands = plains + ([name] if plain else [])
        if x < 0.2 and cands:
            add("u/slice/%d" % n, "[]" + R.choice(cands))
    for kind in KEYS:
        cands = [t for t in recent if kind in keysOf[t]]
        if kind in keys:
            cands.append(name)
        if R.random() < 0.15 and cands:
            typ = R.choice(cands)
            key = GO[kind]
            if kind == "str" and R.random() < 0.2:
                key = "myString"
            add("u/map/%s" % kind, "map[%s]%s%s" % (key, R.choice(["", "*"]), typ), ",key=u/%s/0" % kind)
    for kind in KINDS:
        if R.random() < 0.12:
            add("u/list/%s" % kind, "[]" + scalar(kind), ",value=u/item/%s" % kind)
    # Fields which are none of the database's business.
    for n, (fname, typ, tag) in enumerate(R.sample([
        ("Junk%d", "chan int", ""), ("Junk%d", "string", 'json:"x"'), ("Junk%d", "func()", ""), ("Junk%d", "[]int8", ""),
        ("Junk%d", "any", ""), ("hidden%d", "int", ""), ("hidden%d", "map[string]struct{}", ""), ("Junk%d", "uint32", 'attrs:"u/int/0"'),
    ], R.randrange(0, 3))):
        fields.append((fname % n, typ, tag))
    R.shuffle(fields)
    out.append("type %s struct {" % name)
    for n, (fname, typ, tag) in enumerate(fields):
        out.append("\t%s %s%s" % (fname or "F%d" % n, typ, " `%s`" % tag if tag else ""))
    out.append("}\n")
    keysOf[name] = keys


for i in range(N):
    make("g%d" % i, i % 2 == 0,  # plain: no unique fields, so that it may be the element of a slice
         ["g%d" % j for j in range(max(0, i - 8), i)],
         ["g%d" % j for j in range(max(0, i - 12), i) if j % 2 == 0],
         lambda: "g%d" % (i - i % 6 + R.randrange(6)))

# Types which share their names.
for i in range(10):
    out.append("func namesakes%d() {" % i)
    near = ["g%d" % R.randrange(N) for _ in range(3)]
    kin = lambda: "g%d" % R.randrange(N)
    make("inner", True, near, [t for t in near if int(t[1:]) % 2 == 0], kin)
    make("local", i % 2 == 0, near + ["inner"] * 3, ["inner"], kin)
    out.append("\tregisterFamily[inner](true)\n\tregisterFamily[local](%s)\n}\n" % str(i % 2 == 0).lower())

# Types of which every sort of scalar field is as likely: optional, named, pointed to, and unique.
R = random.Random(20260202)
M = 40


def optional(name, plain, recent, plains):
    used = set()
    fields = []

    def add(ident, typ, opts=""):
        if ident not in used:
            used.add(ident)
            fields.append((typ, 'attr:"%s%s"' % (ident, opts)))

    def any_scalar(kind):
        typ = NAMED[kind] if kind in NAMED and R.random() < 0.3 else GO[kind]
        return R.choice(["", "*"]) + typ

    kind = R.choice(["str", "int", "float"])
    add("u/%s/0" % kind, GO[kind])
    keys = {kind}
    if R.random() < 0.6:
        add("sys/db/id", "uint64")
    for _ in range(R.randrange(2, 9)):
        kind = R.choice(KINDS)
        add("u/%s/%d" % (kind, R.randrange(1, 3)), any_scalar(kind), R.choice(["", ",ignoreempty"]))
    if not plain:
        for _ in range(R.randrange(1, 4)):
            kind = R.choice(KINDS)
            u = R.choice(["identity", "unique"])
            opts = ["," + u] + R.choice([[], [",ignoreempty"]])
            R.shuffle(opts)
            add("u/%s/%s" % (kind, u), any_scalar(kind), "".join(opts))
    if recent and R.random() < 0.5:
        add("u/ref/%d" % R.randrange(4), R.choice(["", "*"]) + R.choice(recent))
    if R.random() < 0.3:
        add("u/ref/%d" % R.randrange(4), "*" + name)
    if plains and R.random() < 0.4:
        add("u/slice/%d" % R.randrange(3), "[]" + R.choice(plains))
    if R.random() < 0.3:
        kind = R.choice(KINDS)
        add("u/list/%s" % kind, "[]" + (NAMED[kind] if kind in NAMED and R.random() < 0.5 else GO[kind]), ",value=u/item/%s" % kind)
    cands = [(t, k) for t in recent for k in sorted(keysOf[t])]
    if cands and R.random() < 0.4:
        typ, kind = R.choice(cands)
        add("u/map/%s" % kind, "map[%s]%s%s" % (R.choice([GO[kind], NAMED[kind]]), R.choice(["", "*"]), typ), ",key=u/%s/0" % kind)
    R.shuffle(fields)
    out.append("type %s struct {" % name)
    for n, (typ, tag) in enumerate(fields):
        out.append("\tF%d %s `%s`" % (n, typ, tag))
    out.append("}\n")
    keysOf[name] = keys


for i in range(M):
    near = ["h%d" % j for j in range(max(0, i - 6), i)]
    optional("h%d" % i, i % 2 == 0, near, [t for t in near if int(t[1:]) % 2 == 0])

# Types with very many fields, and types with attributes whose names are nearly those of others.
R = random.Random(20260303)
LONG = "u/" + "long/" * 80
AKIN = [(i, "str") for i in ["U/str/0", "u/Str/0", "u/str/0 ", " u/str/0", "u/str/00", "u/str/0/", "u//str/0", "/u/str/0", "u.str.0/",
                             "u/s\u0442r/0", "u/str/\u00e9", "u/str/e\u0301", "sysx/str/0", "SYS/db/ident", LONG + "0", LONG + "1"]]
AKIN += [("u/INT/0", "int"), ("u/int/0x", "int"), ("u/int/00", "float"), ("u/float", "int"), ("u/Int/1", "str")]
WIDE = [("v/%s/%d" % (kind, n), kind) for n in range(25) for kind in KINDS]
WREFS = ["v/ref/%d" % n for n in range(5)]
extra = ["\n"]
for n, (ident, kind) in enumerate(AKIN + WIDE):
    extra.append('\tX%d *%s `attr:"%s"`\n' % (n, GO[kind], ident))
for n, ident in enumerate(WREFS):
    extra.append('\tY%d map[uint64]*lite `attr:"%s"`\n' % (n, ident))


def wide(name, n, some, recent):
    used = set()
    fields = []

    def add(ident, typ, opts=""):
        if ident not in used:
            used.add(ident)
            fields.append((typ, 'attr:"%s%s"' % (ident, opts)))

    kind = R.choice(["str", "int", "float"])
    add("u/%s/0" % kind, GO[kind])
    keysOf[name] = {kind}
    if R.random() < 0.7:
        add("sys/db/id", R.choice(["uint64", "myID"]))
    ptrs = R.choice([0, 0.3, 0.6])
    for ident, kind in R.sample(some, min(n, len(some))):
        typ = NAMED[kind] if kind in NAMED and R.random() < 0.1 else GO[kind]
        add(ident, ("*" if R.random() < ptrs else "") + typ, ",ignoreempty" if R.random() < 0.1 else "")
    for n in range(R.randrange(3)):
        add(R.choice(WREFS), R.choice(["", "*"]) + R.choice(recent))
    if R.random() < 0.5:
        add("u/list/int", "[]int", ",value=u/item/int")
    R.shuffle(fields)
    out.append("type %s struct {" % name)
    for n, (typ, tag) in enumerate(fields):
        out.append("\tF%d %s `%s`" % (n, typ, tag))
    out.append("}\n")


WIDTHS = [30, 62, 65, 70, 90, 124, 124]
for i, n in enumerate(WIDTHS):
    wide("w%d" % i, n, WIDE + AKIN, ["h2", "h5", "g3", "k0"] if i == 0 else ["h7", "g4", "w%d" % (i - 1)])
K = 10
for i in range(K):
    wide("k%d" % i, 3 + i % 3 * 3, AKIN, ["h1", "g6"] if i == 0 else ["h9", "g8", "k%d" % (i - 1)])

# Types which embed others: what is embedded without a tag is none of the database's business,
# whatever the tags within; what is embedded with one is a ref like any other.
R = random.Random(20260404)
out.append("""type Embed0 struct {
	E0 string `attr:"u/str/0"`
	E1 int    `attr:"u/int/1"`
	E2 *bool  `attr:"u/bool/0"`
}

type Embed1 struct {
	ID uint64  `attr:"sys/db/id"`
	F0 float64 `attr:"u/float/0"`
	E3 string  `attr:"u/str/1"`
}

type Embed2 struct {
	E4 time.Time `attr:"u/inst/0"`
	Embed0
	*Embed1
}

type Malformed0 struct {
	F0 string   `attr:"u/str/0,bogus"`
	E5 chan int `attr:"u/int/0"`
}

type Malformed1 struct {
	E6 **string       `attr:"u/str/2,identity,unique"`
	E7 map[int]string `attr:"u/map/str,key=u/str/0"`
}

type Malformed2 struct {
	Malformed1
	E8 string `attr:"sys/db/id"`
	ID uint32 `attr:"sys/db/id"`
}
""")
EMBED = ["Embed0", "Embed1", "Embed2", "Malformed0", "Malformed1", "Malformed2"]
E = 12


def embeds(name, recent):
    used = set()
    fields = []

    def add(ident, decl, opts=""):
        if ident not in used:
            used.add(ident)
            fields.append('%s `attr:"%s%s"`' % (decl, ident, opts))

    kind = R.choice(["str", "int", "float"])
    add("u/%s/0" % kind, "F0 " + GO[kind])
    if R.random() < 0.6:
        add("sys/db/id", R.choice(["ID", "F1"]) + " uint64")
    for n in range(R.randrange(4)):
        kind = R.choice(KINDS)
        add("u/%s/%d" % (kind, R.randrange(3)), "G%d %s" % (n, R.choice(["", "*"]) + GO[kind]))
    some = R.sample(EMBED, R.randrange(1, 4))
    for n, typ in enumerate(some):
        if typ in EMBED[:3] and R.random() < 0.4:
            add("u/ref/%d" % n, R.choice(["", "*"]) + typ)
        else:
            fields.append(R.choice(["", "*"]) + typ + R.choice(["", "", ' `json:"attr:u/str/2"`', ' `xattr:"u/ref/3" attrs:"x,bogus"`', ' `Attr:"u/ref/0"`']))
    for n in range(R.randrange(3)):
        fields.append("Not%d %s" % (n, R.choice(["string", "*string", "Embed0", "uint32", "[]int8"]) + R.choice([' `json:"attr:\\"u/str/0\\""`', ' `xattr:"u/str/0"`', ' `ATTR:"u/int/0"`', ' `db:"u/str/0,identity" attr-:"x"`'])))
    if recent and R.random() < 0.5:
        add("u/ref/3", "R " + R.choice(["", "*"]) + R.choice(recent))
    if recent and R.random() < 0.4:
        add("u/slice/%d" % R.randrange(3), "S []" + R.choice(recent))
    R.shuffle(fields)
    out.append("type %s struct {" % name)
    for f in fields:
        out.append("\t" + f)
    out.append("}\n")


for i in range(E):
    embeds("e%d" % i, ["g2", "h4"] if i == 0 else ["e%d" % (i - 1), "h6", "e%d" % (i // 2)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/families.go"), "w") as f:
    f.write("// Code generated by tools/genfamilies.py. DO NOT EDIT.\n\npackage main\n\nimport \"time\"\n\n")
    f.write("type (\n\tmyString string\n\tmyInt    int\n\tmyBool   bool\n\tmyFloat  float64\n\tmyID     uint64\n)\n\n")
    f.write(PROBE[:-2] + "".join(extra) + "}\n\n")
    f.write("\n".join(out))
    f.write("\nfunc init() {\n")
    for i in range(N):
        f.write("\tregisterFamily[g%d](%s)\n" % (i, str(i % 2 == 0).lower()))
    for i in range(M):
        f.write("\tregisterFamily[h%d](%s)\n" % (i, str(i % 2 == 0).lower()))
    for i in range(len(WIDTHS)):
        f.write("\tregisterFamily[w%d](true)\n" % i)
    for i in range(K):
        f.write("\tregisterFamily[k%d](true)\n" % i)
    for i in range(E):
        f.write("\tregisterFamily[e%d](true)\n" % i)
    for t in ["Embed0", "Embed1"]:
        f.write("\tregisterFamily[%s](true)\n" % t)
    for i in range(10):
        f.write("\tnamesakes%d()\n" % i)
    f.write("}\n")
