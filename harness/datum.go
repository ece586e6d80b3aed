package main

import (
	"fmt"
	"slices"
)

// The checks of the datum layer share the monitored write, and differ in their
// workloads and in which divergences break the property.

var degrees = []int{2, 2, 3, 4, 8, 64}

func datumWorld(c *cse, ops map[string]int, noise float64) *world {
	d := pick(c, degrees)
	w := newWorld(c, d)
	if w == nil {
		return nil
	}
	c.log("degree %d", d)
	w.noise = noise
	if ops != nil {
		w.setWeights(with(ops))
	}
	w.big = c.oneIn(15)
	n := 8 + c.IntN(29)
	if w.long = !w.big && c.oneIn(60); w.long {
		// Little at a time, much of it soon given up.
		n = 6 + c.IntN(8)
		w.ops = slices.Clone(w.ops)
		for _, o := range []weighted{{"retractentity", 20}, {"retract", 10}, {"rename", 8}, {"name", 6}, {"stealname", 3}, {"unname", 3}} {
			w.ops = append(w.ops, o)
			w.opsSum += o.n
		}
	}
	if !w.declareAttrs(n) {
		return nil
	}
	return w
}

func datumCheck(id string, cases int, steps int, ops map[string]int, noise float64, floors map[string]int, rule string) {
	register(&check{
		id: id, quick: cases, thorough: cases * 10, floors: floors,
		rule: fmt.Sprintf("a history of %d random requests to one database, weighted to the property, every response, state and touched query compared to a model run from the state before; distinct by the set of request kinds, rejections and effects it had", steps) + rule,
		run: func(c *cse) {
			w := datumWorld(c, ops, noise)
			if w == nil {
				return
			}
			w.history(steps/2+c.IntN(steps), func(wr *written) { c.sample = renderReq(wr.req) })
		},
	})
}

func init() {
	base := map[string]int{"accepted as modelled": 1000, "rejected": 200, "outcomes fully determined": 1000, "views compared": 5000}
	datumCheck("C05", 900, 60, nil, 0.15, base, "")
	datumCheck("C06", 900, 60, map[string]int{"swap": 8, "takeover": 10, "unify": 5, "heldtemp": 6, "collide": 25, "valuetemp": 12, "reclaim": 10, "restate": 8}, 0.4, base, "")
	datumCheck("C07", 900, 50, map[string]int{"unify": 20, "heldtemp": 20, "temprefs": 12, "conflicttemp": 20, "valuetemp": 15}, 0.4, base, "")
	datumCheck("C08", 900, 60, map[string]int{"replace": 30, "samecard": 25, "many": 15, "retract": 10}, 0.3, base, "")
	datumCheck("C09", 900, 60, map[string]int{"badtype": 30, "badref": 40, "akinref": 15}, 0.6, base, "")
	datumCheck("C11", 900, 50, map[string]int{"declare": 8, "redeclare": 20, "alterattr": 40, "badattr": 30, "touchattr": 4}, 0.6, base, "")
}
