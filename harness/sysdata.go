package main

import "github.com/dball/destructive/internal/types"

// The system's datums, written out so that no change to them goes unnoticed.
func init() {
	systemState = state{}
	ident := func(e types.ID, s string) { systemState[eav{e, 1, vstr(s)}] = 5 }
	ref := func(e, a, v types.ID) { systemState[eav{e, a, vref(v)}] = 5 }
	for e, s := range systemIdents {
		ident(e, s)
	}
	for e, t := range map[types.ID]types.ID{1: 12, 2: 11, 3: 11, 4: 11, 6: 15, 17: 11, 19: 13} {
		ref(e, 2, t)
	}
	ref(1, 3, 7)
	systemState[eav{5, 6, vinst(-62135596800000)}] = 5
}

var systemIdents = map[types.ID]string{
	1: "sys/db/ident", 2: "sys/attr/type", 3: "sys/attr/unique", 4: "sys/attr/cardinality", 6: "sys/tx/at",
	7: "sys/attr/unique/identity", 8: "sys/attr/unique/value", 9: "sys/attr/cardinality/one", 10: "sys/attr/cardinality/many",
	11: "sys/attr/type/ref", 12: "sys/attr/type/string", 13: "sys/attr/type/int", 14: "sys/attr/type/bool",
	15: "sys/attr/type/inst", 16: "sys/attr/type/float", 17: "sys/attr/ref/type", 18: "sys/attr/ref/type/dependent", 19: "sys/db/rank",
}
