From e0d55fa41f847cc8909439e409d784b94d0afe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/29] fix: find negative floats by entity and attribute

The float partial lookups started at zero, so they skipped every negative
value: such values were not replaced, counted or selected.
---
 internal/index/index.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..d6523f6 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -310,11 +310,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +391,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +471,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From ad5ac278108c7ff13a5517c29b8d8284011b557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 02/29] fix: order float values that are not a number

NaN compares false with everything, so it broke the ordering on which the
btrees depend and could neither be found, deduplicated nor deleted. Use the
total order of cmp, in which NaN equals itself and precedes other values.
---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 16 ++++++++--------
 internal/index/index.go       | 18 +++++++++---------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..fec35d6 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree. Float values that are not a number are equal
+// to each other, as they are in the float tree. All other value types compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..6d20202 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -144,9 +144,9 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		diff = -1
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		diff = 1
 	default:
 		diff = 0
diff --git a/internal/index/index.go b/internal/index/index.go
index d6523f6..4670de7 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -310,11 +310,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.NaN()})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +391,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: math.NaN()})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +471,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.Inf(-1)})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: math.NaN()})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: math.Inf(-1)})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: math.NaN()})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From c58a121d9702310bfb15b8e1abfcc33c0e071055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/29] fix: select an empty sequence for an unknown attribute

Selecting by the id of an entity that is not an attribute returned a nil
sequence, so iterating the result panicked.
---
 internal/index/index.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 4670de7..ba89bd0 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -263,6 +263,8 @@ func mapSeq(seq iter.Seq[Datum], f func(Datum) Datum) iter.Seq[Datum] {
 // the right index with the right partial. An unsupported pairing yields an empty
 // result rather than an error.
 func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Datum]) {
+	// A partial that finds nothing below yields an empty sequence, since a nil one may not be iterated.
+	seq = func(func(Datum) bool) {}
 	if p == E {
 		strings := idx.strings.Select(CompareE[string], stringValuer.valuer, TypedDatum[string]{E: datum.E})
 		ints := idx.ints.Select(CompareE[int64], intValuer.valuer, TypedDatum[int64]{E: datum.E})
-- 
2.43.0


From 32eeb711192d5b799b897c5fdf1e5eb5d20812a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 04/29] fix: find nothing for a value of the wrong type

Looking up an attribute by a value that is not of the attribute's type, in a
query or a lookup ref, panicked in the index's conversion to storage types.
---
 internal/index/index.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index ba89bd0..e6727d9 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -151,7 +151,16 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
 }
 
+// validValue returns true if the datum's value has the type of its attribute. No
+// others may be converted to their storage types, nor could they be in the index.
+func (idx *CompositeIndex) validValue(datum Datum) (ok bool) {
+	return sys.ValidValue(idx.attrTypes[datum.A], datum.V)
+}
+
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
+	if !idx.validValue(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		extant = idx.strings.Find(TypedDatum[string]{E: datum.E, A: datum.A, V: string(datum.V.(String))})
@@ -275,6 +284,9 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 		seq = mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 		return
 	}
+	if p == AV && !idx.validValue(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -356,6 +368,9 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 		}
 		return
 	}
+	if p == AV && !idx.validValue(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -436,6 +451,9 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 		count += idx.floats.Count(CompareE[float64], TypedDatum[float64]{E: datum.E})
 		return
 	}
+	if p == AV && !idx.validValue(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
-- 
2.43.0


From 4a95284d453472ec6a18c9578c869851055032a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 05/29] fix: resolve every reference in a query, or match
 nothing

References that did not resolve, and idents and lookup refs given as values or
lookup refs given as attributes, were treated as empty fields, so a query
naming something unknown matched every datum.
---
 internal/database/snapshot.go | 61 +++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index fec35d6..e3914ec 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -76,7 +76,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +87,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +104,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -170,24 +179,64 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
+// resolveClaim resolves the claim's fields. Empty fields are left empty. This is not ok
+// if any other field does not resolve, in which case nothing matches the claim.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
 	switch e := claim.E.(type) {
+	case nil:
 	case ID:
 		match.E = e
 	case Ident:
 		match.E = snapshot.idents[e]
+		if match.E == 0 {
+			return
+		}
 	case LookupRef:
 		match.E = snapshot.resolveLookupRef(e)
+		if match.E == 0 {
+			return
+		}
+	default:
+		return
 	}
 	switch a := claim.A.(type) {
+	case nil:
 	case ID:
 		match.A = a
 	case Ident:
 		match.A = snapshot.idents[a]
+		if match.A == 0 {
+			return
+		}
+	case LookupRef:
+		match.A = snapshot.resolveLookupRef(a)
+		if match.A == 0 {
+			return
+		}
+	default:
+		return
 	}
-	value, ok := claim.V.(Value)
-	if ok {
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident:
+		id := snapshot.idents[v]
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case LookupRef:
+		id := snapshot.resolveLookupRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	default:
+		value, isValue := v.(Value)
+		if !isValue {
+			return
+		}
 		match.V = value
 	}
+	ok = true
 	return
 }
-- 
2.43.0


From 9be3746f3290f788ca4922d2aa45388cabe046d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 06/29] fix: resolve lookup refs whose attribute is a lookup
 ref

The attribute of a lookup ref may be any form of id ref.
---
 internal/database/database.go | 2 ++
 internal/database/snapshot.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..f7ca9c7 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -474,6 +474,8 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index e3914ec..f799a50 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -166,6 +166,8 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = snapshot.idents[a]
+	case LookupRef:
+		datum.A = snapshot.resolveLookupRef(a)
 	default:
 		return
 	}
-- 
2.43.0


From 472c943a2947a11d405586b982e14211e57ea0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 07/29] fix: exclude concurrent reads from each other

Reading clones the indexes, which is not safe to do concurrently as it changes
the btree being cloned: two reads sharing the read lock race.
---
 internal/database/database.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index f7ca9c7..cd5b58a 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning an index changes it, so concurrent reads must exclude each other.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From 2b5adfc9f69f6db03f3b45333fb2a97ed5072982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 08/29] fix: declare attributes without changing the types
 snapshots read

Every snapshot's indexes shared the map of attribute types with the database,
so declaring an attribute raced with concurrent queries, which is fatal.
---
 internal/database/database.go | 7 +++++++
 internal/index/index.go       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index cd5b58a..89fa8f9 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -347,6 +347,13 @@ CLAIMS:
 		for id, ident := range identCreates {
 			db.idents[ident] = id
 		}
+		if len(attrChanges) != 0 {
+			// Extant snapshots share the attr types with their indexes, so we must change a copy.
+			db.attrTypes = maps.Clone(db.attrTypes)
+			eav.SetAttrTypes(db.attrTypes)
+			aev.SetAttrTypes(db.attrTypes)
+			ave.SetAttrTypes(db.attrTypes)
+		}
 		for id, attr := range attrChanges {
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
diff --git a/internal/index/index.go b/internal/index/index.go
index e6727d9..e40e716 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,9 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// SetAttrTypes replaces the types of the attributes by which the index interprets datums. This
+	// does not affect clones.
+	SetAttrTypes(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -535,3 +538,7 @@ func (idx *CompositeIndex) Clone() (clone Index) {
 	}
 	return
 }
+
+func (idx *CompositeIndex) SetAttrTypes(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
-- 
2.43.0


From 9c28a913c859919a47a5e52ed0f22809e6a6718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 09/29] fix: retract without overwriting the caller's claims

Retractions were appended to the request's claims, so writing a request whose
claims had spare capacity overwrote whatever the caller kept there.
---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 89fa8f9..b1b9d35 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -4,6 +4,7 @@ package database
 import (
 	"log"
 	"maps"
+	"slices"
 	"sync"
 
 	"github.com/dball/destructive/internal/index"
@@ -107,7 +108,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	// Retractions may append to the claims, which must not write to memory the caller owns.
+	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
-- 
2.43.0


From 99ebaa99641ceffd0939c10a4f0b20e83ed5473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 10/29] fix: reject invalid retractions with a snapshot

A retraction without constraints was accepted, though it can not resolve to a
single id, and rejected retractions responded with no snapshot.
---
 internal/database/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index b1b9d35..95aa9eb 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -127,14 +127,21 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
+			if id == 0 {
+				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From dbf7cd8585382b747832a967f051156cf3f0edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 11/29] fix: enforce attribute invariants upon resolved
 entities

Attribute invariants were enforced before tempids resolved to the entities
whose identities they claimed. Declaring an extant attribute again therefore
replaced it in the caches by an id that was never used, detaching its data and
uniqueness, and could change its type. Resolve all tempids first.
---
 internal/database/database.go | 49 +++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 95aa9eb..10c442a 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -156,7 +156,7 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
-CLAIMS:
+UNIQUES:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
@@ -172,17 +172,41 @@ CLAIMS:
 						_, ok := rewrites[datum.E]
 						if ok {
 							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
+							break UNIQUES
 						} else {
 							rewrites[datum.E] = d.E
 						}
 					case sys.AttrUniqueValue:
 						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
+						break UNIQUES
 					}
 				}
 			}
 		}
+		data = append(data, datum)
+	}
+	// TempIDs may have been assigned IDs that subsequently resolved to identity
+	// unique datum ids, so we rewrite them if so.
+	for tempid, tid := range res.TempIDs {
+		id, ok := rewrites[tid]
+		if ok {
+			res.TempIDs[tempid] = id
+		}
+	}
+CLAIMS:
+	for i, datum := range data {
+		if res.Error != nil {
+			break
+		}
+		claim := claims[i]
+		tempid, ok := claim.E.(TempID)
+		if ok {
+			datum.E = res.TempIDs[tempid]
+		}
+		tempid, ok = claim.V.(TempID)
+		if ok {
+			datum.V = res.TempIDs[tempid]
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
@@ -264,7 +288,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -296,24 +319,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
-- 
2.43.0


From 3a2b1f820dc9e3b2749575a8dc0adbaf76d38950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 12/29] fix: enforce uniqueness within a request and for extant
 entities

Uniqueness considered only tempids and only values held before the request, so
two entities could come to hold the same unique value by claims in one request
or by claims about extant entities, tempids claiming one identity became two
entities, and an entity could not restate a unique value that it held, nor
could a tempid whose identities agreed on one entity.
---
 internal/database/database.go | 57 ++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 10c442a..e453dc0 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -103,6 +103,15 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 
 func (db *indexDatabase) Write(req Request) (res Response) {
 	rewrites := map[ID]ID{}
+	resolve := func(id ID) ID {
+		for {
+			to, ok := rewrites[id]
+			if !ok {
+				return id
+			}
+			id = to
+		}
+	}
 	db.lock.Lock()
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
@@ -156,6 +165,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
+	// These are the extant unique values and those claimed by the request.
+	uniques := db.ave.Clone()
 UNIQUES:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
@@ -165,22 +176,32 @@ UNIQUES:
 		if !claim.Retract {
 			unique := db.attrUniques[datum.A]
 			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
+				d, ok := uniques.First(index.AV, *datum)
 				if ok {
+					_, temp := claim.E.(TempID)
+					e, extant := resolve(datum.E), resolve(d.E)
 					switch unique {
 					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
+						// Only the ids assigned to tempids by this request may resolve to others. Two extant
+						// entities collide below unless the one gives up the value.
+						switch {
+						case e == extant:
+						case e > res.ID:
+							rewrites[e] = extant
+						case extant > res.ID:
+							rewrites[extant] = e
+						case temp:
 							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
 							break UNIQUES
-						} else {
-							rewrites[datum.E] = d.E
 						}
 					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break UNIQUES
+						if temp && d.E < res.ID {
+							res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+							break UNIQUES
+						}
 					}
 				}
+				uniques.Insert(*datum)
 			}
 		}
 		data = append(data, datum)
@@ -188,10 +209,7 @@ UNIQUES:
 	// TempIDs may have been assigned IDs that subsequently resolved to identity
 	// unique datum ids, so we rewrite them if so.
 	for tempid, tid := range res.TempIDs {
-		id, ok := rewrites[tid]
-		if ok {
-			res.TempIDs[tempid] = id
-		}
+		res.TempIDs[tempid] = resolve(tid)
 	}
 CLAIMS:
 	for i, datum := range data {
@@ -311,11 +329,11 @@ CLAIMS:
 		}
 	}
 	// We now have datums with resolved or assigned ids and consistent avs.
+	eav := db.eav.Clone()
+	aev := db.aev.Clone()
+	// Could defer this clone until we know we need it
+	ave := db.ave.Clone()
 	if res.Error == nil {
-		eav := db.eav.Clone()
-		aev := db.aev.Clone()
-		// Could defer this clone until we know we need it
-		ave := db.ave.Clone()
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
@@ -352,6 +370,15 @@ CLAIMS:
 				}
 			}
 		}
+		for i, datum := range data {
+			_, ok := db.attrUniques[datum.A]
+			if ok && !claims[i].Retract && ave.Count(index.AV, *datum) > 1 {
+				res.Error = NewError("database.write.uniqueValueCollision", "datum", datum)
+				break
+			}
+		}
+	}
+	if res.Error == nil {
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-- 
2.43.0


From ae3877124b3e2f7f5c2be56431bdfaba5ab51dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 13/29] fix: retain the datum when restating an equal value

An inst restated in another time zone or with a fraction of a millisecond, or a
NaN, compared unequal to itself, so it was introduced anew by the transaction.
---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index e453dc0..183390f 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -343,7 +343,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From c1f7f211c0644c8f68dc96fa4ddedb244c399aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 14/29] fix: reject multiple values for a cardinality one
 attribute

A request asserting different values of a cardinality one attribute for one
entity was accepted, recording whichever claim came last.
---
 internal/database/database.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 183390f..13dbf1b 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -211,6 +211,8 @@ UNIQUES:
 	for tempid, tid := range res.TempIDs {
 		res.TempIDs[tempid] = resolve(tid)
 	}
+	// These are the values asserted by the request for cardinality one attributes.
+	scalars := map[[2]ID]Value{}
 CLAIMS:
 	for i, datum := range data {
 		if res.Error != nil {
@@ -225,6 +227,16 @@ CLAIMS:
 		if ok {
 			datum.V = res.TempIDs[tempid]
 		}
+		_, many := db.attrCardManies[datum.A]
+		if !claim.Retract && !many {
+			ea := [2]ID{datum.E, datum.A}
+			v, ok := scalars[ea]
+			if ok && !valuesEqual(v, datum.V) {
+				res.Error = NewError("database.write.cardinalityOneConflict", "datum", datum, "value", v)
+				break
+			}
+			scalars[ea] = datum.V
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
-- 
2.43.0


From bda8898bdaaa03368eaf6685630c4979f80bd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 15/29] fix: reject claims about system entities

Claims could assert any user attribute of system entities, or retract the
system transaction's time.
---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 13dbf1b..f96ee4d 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -238,6 +238,10 @@ CLAIMS:
 			scalars[ea] = datum.V
 		}
 		// Enforce system invariants and maintain database caches.
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.systemEntity", "datum", datum)
+			break
+		}
 		switch datum.A {
 		case sys.DbIdent:
 			ident := Ident(datum.V.(String))
-- 
2.43.0


From 4bb17c1c11aca79a9836e0b3cf0128d7d366054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 16/29] fix: resolve idents to the entities that hold them

The ident cache kept the former idents of renamed entities, and forgot idents
retracted from entities that did not hold them, including those of attributes.
An attribute could be declared without an ident by retracting it in the same
request.
---
 internal/database/database.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index f96ee4d..de5adbe 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -116,7 +116,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
+	// These are all of the idents which may have been given up.
+	renames := map[Ident]Void{}
 	// Retractions may append to the claims, which must not write to memory the caller owns.
 	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
@@ -262,7 +263,7 @@ CLAIMS:
 					break CLAIMS
 				}
 				if claim.Retract {
-					identDeletes[datum.E] = ident
+					renames[ident] = Void{}
 				} else {
 					identCreates[datum.E] = ident
 				}
@@ -364,6 +365,9 @@ CLAIMS:
 						} else {
 							eav.Delete(d)
 							aev.Delete(d)
+							if datum.A == sys.DbIdent {
+								renames[Ident(d.V.(String))] = Void{}
+							}
 							_, ok := db.attrUniques[datum.A]
 							if ok {
 								ave.Delete(d)
@@ -393,16 +397,28 @@ CLAIMS:
 				break
 			}
 		}
+		for id, attr := range attrChanges {
+			// The request may also have retracted the ident.
+			if !eav.Find(Datum{E: id, A: sys.DbIdent, V: String(attr.Ident)}) {
+				res.Error = NewError("database.write.attrRequiresIdent", "attr", attr)
+				break
+			}
+		}
 	}
 	if res.Error == nil {
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
+		for _, ident := range identCreates {
+			renames[ident] = Void{}
 		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
+		for ident := range renames {
+			d, ok := ave.First(index.AV, Datum{A: sys.DbIdent, V: String(ident)})
+			if ok {
+				db.idents[ident] = d.E
+			} else {
+				delete(db.idents, ident)
+			}
 		}
 		if len(attrChanges) != 0 {
 			// Extant snapshots share the attr types with their indexes, so we must change a copy.
-- 
2.43.0


From c0b5ff08d6fbb9c1bff1065a0e30ad227301835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 17/29] fix: ignore struct fields without an attr tag

Such fields were modeled with neither an ident nor a type, so recording or
declaring any struct with one panicked.
---
 internal/structs/models/models.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..9f1519d 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -107,6 +107,10 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 	attrFields := make([]AttrFieldModel, 0, n)
 	for i := range n {
 		fieldType := typ.Field(i)
+		_, ok := fieldType.Tag.Lookup("attr")
+		if !ok {
+			continue
+		}
 		attr, fieldErr := parseAttrField(fieldType)
 		if fieldErr != nil {
 			err = fieldErr
-- 
2.43.0


From 53c76eb9c0b0420bbb0e24eabf025de066d19545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 18/29] fix: cache the models of valid structs

The caching analyzer stored only the models of invalid structs, in a map that
was never made, so analyzing any such struct panicked.
---
 internal/structs/models/models.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 9f1519d..fefc65d 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,19 +17,25 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
+	// lock guards types, since analyzers are shared by all users of a database.
+	lock  sync.RWMutex
 	types map[reflect.Type]*StructModel
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
+	analyzer.lock.RLock()
 	mp := analyzer.types[typ]
+	analyzer.lock.RUnlock()
 	if mp != nil {
 		model = *mp
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
+	if err == nil {
+		analyzer.lock.Lock()
+		defer analyzer.lock.Unlock()
 		analyzer.types[typ] = &model
 	}
 	return
@@ -36,7 +43,7 @@ func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, e
 
 // BuildCachingAnalyzer returns an analyzer with a cache of type models.
 func BuildCachingAnalyzer() Analyzer {
-	return &cachingAnalyzer{}
+	return &cachingAnalyzer{types: map[reflect.Type]*StructModel{}}
 }
 
 // StructModel models a struct that has fields bound to attributes, whose instances
-- 
2.43.0


From 7a05288063a2b3a12de2a310c858019639fd3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 19/29] fix: refuse to assemble structs inconsistent with their
 attributes

Loading an entity into a struct whose field type is not that of its attribute,
whose id field is not a uint64, or which has an unexported field panicked, as
did pointers to named scalar types.
---
 internal/structs/assemblers/assemblers.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..dda66c3 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -112,6 +112,13 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			continue
 		}
 		field := value.Field(attr.Index)
+		if !field.CanSet() {
+			continue
+		}
+		if !sys.ValidValue(attr.Type, datum.V) {
+			err = NewError("assembler.inconsistentFieldType", "field", attr, "datum", datum)
+			return
+		}
 		if attr.IsPointer() {
 			// TODO who owns the vs anyway? If they're not copied at some point,
 			// exposing value pointers opens the door to database corruption.
@@ -120,16 +127,16 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				// TODO does this count as a copy for the purpose of ensuring the
 				// outer pointer doesn't change the Fact value?
 				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Int:
 				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Bool:
 				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Float:
 				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Inst:
 				fv := time.Time(v)
 				field.Set(reflect.ValueOf(&fv))
@@ -227,7 +234,13 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
 		field := value.Field(attr.Index)
-		field.SetUint(uint64(id))
+		if field.Kind() != reflect.Uint64 {
+			err = NewError("assembler.invalidIdFieldType", "type", attr.FieldType)
+			return
+		}
+		if field.CanSet() {
+			field.SetUint(uint64(id))
+		}
 	}
 	maes, ok := as.mapsAwaitingEntries[id]
 	if ok {
-- 
2.43.0


From c922a7f3dceec221fdc22514a4c511a9dc4ce908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 20/29] fix: assemble collections whatever their scalar types
 and entries

Slices of ints or named scalars and maps keyed by them panicked, as did maps
keyed by the system id, entries without a rank or key, and ranks that are not
contiguous since an entry was retracted.
---
 internal/structs/assemblers/assemblers.go | 104 ++++++++++++++++++----
 1 file changed, 86 insertions(+), 18 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index dda66c3..def6a49 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -3,6 +3,7 @@ package assemblers
 
 import (
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/dball/destructive/internal/structs/models"
@@ -18,9 +19,9 @@ type mapAwaitingEntry struct {
 }
 
 type sliceAwaitingEntry struct {
-	collValue Ident
-	slice     reflect.Value
-	pointer   reflect.Value
+	index   int
+	slice   reflect.Value
+	pointer reflect.Value
 }
 
 // TODO an assembler can only have a single instance type per id, which is not a constraint imposed
@@ -103,6 +104,8 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	// We know the A's in which we're interested, so we could be more selective (heh) here
 	// if we had reason to believe the snapshot E had many more A's.
 	foundAny := false
+	// slices are the positions of the entries of the entity's slices by field index
+	slices := map[int]map[ID]int{}
 	for datum := range as.snapshot.Select(Claim{E: id}) {
 		foundAny = true
 		ident := as.snapshot.ResolveAttrIdent(datum.A)
@@ -187,13 +190,19 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					if err != nil {
+						return
+					}
 				case attr.IsSlice():
 					var slice reflect.Value
+					positions := slices[attr.Index]
 					if field.IsNil() {
-						n := as.snapshot.Count(Claim{E: datum.E, A: datum.A})
+						positions = as.findPositions(datum.E, datum.A)
+						n := len(positions)
 						slice = reflect.MakeSlice(field.Type(), n, n)
 						field.Set(slice)
+						slices[attr.Index] = positions
 					} else {
 						slice = field
 					}
@@ -203,13 +212,21 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						i, ranked := positions[v]
+						if ranked {
+							as.addEntityToSlice(i, slice, v, pointer, ok)
+						}
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
+						i, ranked := positions[v]
 						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
+						if ranked && scalar != nil {
+							err = setScalar(slice.Index(i), scalar)
+							if err != nil {
+								return
+							}
+						}
 					}
 				default:
 					pointer, ok := as.pointers[v]
@@ -245,14 +262,17 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	maes, ok := as.mapsAwaitingEntries[id]
 	if ok {
 		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			if err != nil {
+				return
+			}
 		}
 		delete(as.mapsAwaitingEntries, id)
 	}
 	saes, ok := as.slicesAwaitingEntries[id]
 	if ok {
 		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			as.addEntityToSlice(sae.index, sae.slice, id, sae.pointer, true)
 		}
 		delete(as.slicesAwaitingEntries, id)
 	}
@@ -284,18 +304,67 @@ func (as *assembler) findValue(e ID, a Ident) (v any) {
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
+// findPositions returns the positions of the entities to which an attribute refers in
+// the order of their ranks. Entities without a rank have none.
+func (as *assembler) findPositions(e ID, a ID) (positions map[ID]int) {
+	ranks := map[ID]int64{}
+	var ids []ID
+	for datum := range as.snapshot.Select(Claim{E: e, A: a}) {
+		id := datum.V.(ID)
+		rank, ok := as.findValue(id, Ident("sys/db/rank")).(int64)
+		if ok {
+			ranks[id] = rank
+			ids = append(ids, id)
+		}
+	}
+	sort.SliceStable(ids, func(i, j int) bool { return ranks[ids[i]] < ranks[ids[j]] })
+	positions = make(map[ID]int, len(ids))
+	for i, id := range ids {
+		positions[id] = i
+	}
+	return
+}
+
+// setScalar sets the target to the value found, converting it to the target's type
+// if they are of the same kind.
+func setScalar(target reflect.Value, v any) (err error) {
+	value := reflect.ValueOf(v)
+	typ := target.Type()
+	switch {
+	case value.CanInt() && target.CanInt() && !target.OverflowInt(value.Int()):
+	case value.Kind() == typ.Kind() && value.CanConvert(typ):
+	case value.Type().AssignableTo(typ):
+	default:
+		err = NewError("assembler.inconsistentValueType", "value", v, "type", typ)
+		return
+	}
+	target.Set(value.Convert(typ))
+	return
+}
+
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
 	if immediate {
 		// findValue is the only way of finding the key value when it's not present on the value struct,
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
+		var keyValue any = uint64(id)
+		if mapKey != sys.DbId {
+			keyValue = as.findValue(id, mapKey)
+		}
+		if keyValue == nil {
+			return
+		}
+		key := reflect.New(m.Type().Key()).Elem()
+		err = setScalar(key, keyValue)
+		if err != nil {
+			return
+		}
 		value := pointer
 		if !mapHasPointers {
 			value = pointer.Elem()
 		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
+		m.SetMapIndex(key, value)
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
@@ -306,17 +375,16 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		maes = append(maes, mae)
 		as.mapsAwaitingEntries[id] = maes
 	}
+	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
+func (as *assembler) addEntityToSlice(index int, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
 	if immediate {
 		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
-		i := int(index.(int64))
-		slice.Index(i).Set(value)
+		slice.Index(index).Set(value)
 		return
 	}
-	sae := sliceAwaitingEntry{collValue, slice, pointer}
+	sae := sliceAwaitingEntry{index, slice, pointer}
 	saes, ok := as.slicesAwaitingEntries[id]
 	if !ok {
 		as.slicesAwaitingEntries[id] = []sliceAwaitingEntry{sae}
-- 
2.43.0


From 5a2c1dfcaf1eb47e397e27cad80d131c87e7a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 21/29] fix: complete every struct value in an assembled graph

Struct values were copied into collections and fields before what they contain
had been assembled, so nested struct values were lost, as were entities reached
more than once. An entity reached as two struct types panicked. Realize all of
the instances, by entity and type, before copying any.
---
 internal/structs/assemblers/assemblers.go | 138 +++++++++++++---------
 1 file changed, 85 insertions(+), 53 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index def6a49..03bc8f8 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -24,34 +24,47 @@ type sliceAwaitingEntry struct {
 	pointer reflect.Value
 }
 
-// TODO an assembler can only have a single instance type per id, which is not a constraint imposed
-// by the database. Should we reify this more formally?
+// instanceKey identifies an entity as an instance of a struct type.
+type instanceKey struct {
+	id  ID
+	typ reflect.Type
+}
+
+type fieldAwaitingValue struct {
+	field   reflect.Value
+	key     instanceKey
+	pointer reflect.Value
+}
+
 type assembler struct {
 	// analyzer converts types to struct models
 	analyzer models.Analyzer
 	// snapshot holds the actual datums
 	snapshot Snapshot
 	// instances are pointers to fully realized entity instances
-	instances map[ID]reflect.Value
+	instances map[instanceKey]reflect.Value
 	// pointers are pointers to all of the at least partially realized entities allocated by the assembler
-	pointers map[ID]reflect.Value
+	pointers map[instanceKey]reflect.Value
 	// unprocessed are (not nil) pointers to unrealized entities
-	unprocessed map[ID]reflect.Value
+	unprocessed map[instanceKey]reflect.Value
 	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
-	mapsAwaitingEntries map[ID][]mapAwaitingEntry
+	mapsAwaitingEntries map[instanceKey][]mapAwaitingEntry
 	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
-	slicesAwaitingEntries map[ID][]sliceAwaitingEntry
+	slicesAwaitingEntries map[instanceKey][]sliceAwaitingEntry
+	// fieldsAwaitingValues are struct fields in entity structs awaiting referent entities to be realized
+	fieldsAwaitingValues map[instanceKey][]fieldAwaitingValue
 }
 
 func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 	as = &assembler{
 		analyzer:              analyzer,
 		snapshot:              snapshot,
-		instances:             map[ID]reflect.Value{},
-		pointers:              map[ID]reflect.Value{},
-		unprocessed:           map[ID]reflect.Value{},
-		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
-		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
+		instances:             map[instanceKey]reflect.Value{},
+		pointers:              map[instanceKey]reflect.Value{},
+		unprocessed:           map[instanceKey]reflect.Value{},
+		mapsAwaitingEntries:   map[instanceKey][]mapAwaitingEntry{},
+		slicesAwaitingEntries: map[instanceKey][]sliceAwaitingEntry{},
+		fieldsAwaitingValues:  map[instanceKey][]fieldAwaitingValue{},
 	}
 	return
 }
@@ -65,8 +78,9 @@ func (as *assembler) allocate(id ID, pointerType reflect.Type) (ptr reflect.Valu
 	// store the new struct in the new pointer
 	ptr.Set(entity)
 	// store the pointer in the unrealized entities map
-	as.unprocessed[id] = ptr
-	as.pointers[id] = ptr
+	key := instanceKey{id, pointerType.Elem()}
+	as.unprocessed[key] = ptr
+	as.pointers[key] = ptr
 	return
 }
 
@@ -75,7 +89,7 @@ func (as *assembler) assembleAll() (err error) {
 		if len(as.unprocessed) == 0 {
 			break
 		}
-		var id ID
+		var id instanceKey
 		var ptr reflect.Value
 		// TODO this should ideally be the first value in id order, so, again, sorted map
 		for k, v := range as.unprocessed {
@@ -84,14 +98,46 @@ func (as *assembler) assembleAll() (err error) {
 			delete(as.unprocessed, k)
 			break
 		}
-		err = as.assemble(id, ptr)
+		err = as.assemble(id.id, ptr)
 		if err != nil {
 			return
 		}
 	}
+	// Struct values are copied, so none may be until all that they contain have been realized.
+	for key := range as.fieldsAwaitingValues {
+		as.setFieldsAwaitingValues(key)
+	}
+	for key, maes := range as.mapsAwaitingEntries {
+		if as.instances[key].IsValid() {
+			for _, mae := range maes {
+				err = as.addEntityToMap(mae.mapKey, mae.m, key, mae.pointer, mae.mapHasPointers, true)
+				if err != nil {
+					return
+				}
+			}
+		}
+		delete(as.mapsAwaitingEntries, key)
+	}
+	for key, saes := range as.slicesAwaitingEntries {
+		for _, sae := range saes {
+			as.addEntityToSlice(sae.index, sae.slice, key, sae.pointer, true)
+		}
+		delete(as.slicesAwaitingEntries, key)
+	}
 	return
 }
 
+// setFieldsAwaitingValues sets the struct fields of an instance to the instances of the
+// entities to which they refer. Since no struct type may contain itself, this terminates.
+func (as *assembler) setFieldsAwaitingValues(key instanceKey) {
+	favs := as.fieldsAwaitingValues[key]
+	delete(as.fieldsAwaitingValues, key)
+	for _, fav := range favs {
+		as.setFieldsAwaitingValues(fav.key)
+		fav.field.Set(fav.pointer.Elem())
+	}
+}
+
 func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	value := ptr.Elem()
 
@@ -144,7 +190,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				fv := time.Time(v)
 				field.Set(reflect.ValueOf(&fv))
 			case ID:
-				pointer, ok := as.pointers[v]
+				pointer, ok := as.pointers[instanceKey{v, field.Type().Elem()}]
 				if ok {
 					field.Set(pointer)
 				} else {
@@ -186,11 +232,12 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if mapHasPointers {
 						mapValueType = mapValueType.Elem()
 					}
-					pointer, ok := as.pointers[v]
+					key := instanceKey{v, mapValueType}
+					pointer, ok := as.pointers[key]
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					err = as.addEntityToMap(attr.MapKey, m, key, pointer, mapHasPointers, false)
 					if err != nil {
 						return
 					}
@@ -208,13 +255,14 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					}
 					if attr.CollValue == "" {
 						sliceValueType := slice.Type().Elem()
-						pointer, ok := as.pointers[v]
+						key := instanceKey{v, sliceValueType}
+						pointer, ok := as.pointers[key]
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
 						i, ranked := positions[v]
 						if ranked {
-							as.addEntityToSlice(i, slice, v, pointer, ok)
+							as.addEntityToSlice(i, slice, key, pointer, false)
 						}
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
@@ -229,14 +277,13 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						}
 					}
 				default:
-					pointer, ok := as.pointers[v]
-					if ok {
-						field.Set(pointer.Elem())
-					} else {
-						pointer = field.Addr()
-						as.pointers[v] = pointer
-						as.unprocessed[v] = pointer
+					key := instanceKey{v, field.Type()}
+					pointer, ok := as.pointers[key]
+					if !ok {
+						pointer = as.allocate(v, reflect.PointerTo(field.Type()))
 					}
+					parent := instanceKey{id, value.Type()}
+					as.fieldsAwaitingValues[parent] = append(as.fieldsAwaitingValues[parent], fieldAwaitingValue{field, key, pointer})
 				}
 			default:
 				err = NewError("assembler.invalidFactValue")
@@ -244,8 +291,9 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			}
 		}
 	}
+	key := instanceKey{id, value.Type()}
 	if !foundAny {
-		as.instances[id] = reflect.ValueOf(nil)
+		as.instances[key] = reflect.ValueOf(nil)
 		return
 	}
 	attr, ok := model.Attr(Ident(sys.DbId))
@@ -259,24 +307,7 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			field.SetUint(uint64(id))
 		}
 	}
-	maes, ok := as.mapsAwaitingEntries[id]
-	if ok {
-		for _, mae := range maes {
-			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
-			if err != nil {
-				return
-			}
-		}
-		delete(as.mapsAwaitingEntries, id)
-	}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if ok {
-		for _, sae := range saes {
-			as.addEntityToSlice(sae.index, sae.slice, id, sae.pointer, true)
-		}
-		delete(as.slicesAwaitingEntries, id)
-	}
-	as.instances[id] = ptr
+	as.instances[key] = ptr
 	return
 }
 
@@ -342,15 +373,15 @@ func setScalar(target reflect.Value, v any) (err error) {
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id instanceKey, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
 	if immediate {
 		// findValue is the only way of finding the key value when it's not present on the value struct,
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		var keyValue any = uint64(id)
+		var keyValue any = uint64(id.id)
 		if mapKey != sys.DbId {
-			keyValue = as.findValue(id, mapKey)
+			keyValue = as.findValue(id.id, mapKey)
 		}
 		if keyValue == nil {
 			return
@@ -378,7 +409,7 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 	return
 }
 
-func (as *assembler) addEntityToSlice(index int, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
+func (as *assembler) addEntityToSlice(index int, slice reflect.Value, id instanceKey, pointer reflect.Value, immediate bool) {
 	if immediate {
 		value := pointer.Elem()
 		slice.Index(index).Set(value)
@@ -401,14 +432,15 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
-	instance, ok := as.instances[id]
+	key := instanceKey{id, structType}
+	instance, ok := as.instances[key]
 	if !ok {
 		as.allocate(id, reflect.TypeFor[*T]())
 		err = as.assembleAll()
 		if err != nil {
 			return
 		}
-		instance, ok = as.instances[id]
+		instance, ok = as.instances[key]
 		if !ok {
 			err = NewError("assembler.failure", "id", id)
 			return
-- 
2.43.0


From dc2fedeb6556483f4070f8235b1d54949f5c0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 22/29] fix: reject nil structs and unexported fields

Asserting or retracting a nil interface panicked, as did recording structs with
unexported fields that are not simple scalars.
---
 internal/structs/models/models.go     |  2 +-
 internal/structs/shredder/field.go    | 17 +++++++++++++++++
 internal/structs/shredder/shredder.go |  8 ++++++++
 pkg/database/impl.go                  |  2 +-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index fefc65d..c753385 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -105,7 +105,7 @@ func (attr AttrFieldModel) IsPointer() bool {
 
 // Analyze builds a struct model for the given struct type.
 func Analyze(typ reflect.Type) (model StructModel, err error) {
-	if typ.Kind() != reflect.Struct {
+	if typ == nil || typ.Kind() != reflect.Struct {
 		err = NewError("models.notStruct", "type", typ)
 		return
 	}
diff --git a/internal/structs/shredder/field.go b/internal/structs/shredder/field.go
index aa3d286..411f270 100644
--- a/internal/structs/shredder/field.go
+++ b/internal/structs/shredder/field.go
@@ -23,6 +23,9 @@ func scalarValue(v reflect.Value) (Value, bool) {
 	case reflect.Float64:
 		return Float(v.Float()), true
 	case reflect.Struct:
+		if !v.CanInterface() {
+			break
+		}
 		if t, ok := v.Interface().(time.Time); ok {
 			return Inst(t), true
 		}
@@ -46,10 +49,16 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 	case reflect.Struct:
 		if sv, ok := scalarValue(fieldValue); ok {
 			val = sv
+		} else if !fieldValue.CanInterface() {
+			err = NewError("shredder.unexportedField", "type", fieldType)
 		} else {
 			val = fieldValue.Interface()
 		}
 	case reflect.Map:
+		if !fieldValue.CanInterface() {
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
 		var vals values
 		iter := fieldValue.MapRange()
 		for iter.Next() {
@@ -62,6 +71,10 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 		}
 		val = vals
 	case reflect.Slice:
+		if !fieldValue.CanInterface() {
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
 		var vals values
 		n := fieldValue.Len()
 		for i := range n {
@@ -78,6 +91,10 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 			return
 		}
 		// A pointer to a ref struct resolves through the pointers map for cycle detection.
+		if !elem.CanInterface() {
+			err = NewError("shredder.unexportedField", "type", fieldType)
+			return
+		}
 		ptr := elem.Addr()
 		if tempid, ok := pointers[ptr]; ok {
 			val = tempid
diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..2e91b2a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -104,6 +104,10 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 
 func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim, err error) {
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var fields reflect.Value
 	var id ID
 	switch typ.Kind() {
@@ -226,6 +230,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	constraints := map[IDRef]Void{}
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var e ID
 	switch typ.Kind() {
 	case reflect.Struct:
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..a9d07f1 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -58,7 +58,7 @@ func (db *localDatabase) Read() *Snapshot {
 func (db *localDatabase) Write(req Request) (res Response) {
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
-		if typ.Kind() == reflect.Pointer {
+		if typ != nil && typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
 		// TODO we should keep a registry of types whose attrs
-- 
2.43.0


From fb83b6be364ff5331ea35070ec5745ba6559f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 23/29] fix: reject collections that contain themselves

A slice or map of struct values that contains itself was shredded endlessly,
until the stack overflowed, which is fatal.
---
 internal/structs/shredder/shredder.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 2e91b2a..96c7561 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -40,6 +40,15 @@ type confetti struct {
 	pointers map[reflect.Value]TempID
 	// tempIDs are the registry of temp ids allocated by shredding the document.
 	tempIDs map[TempID]ID
+	// collections are the maps and slices being shredded since the last pointer.
+	collections map[collection]Void
+}
+
+// collection identifies a map or slice.
+type collection struct {
+	typ reflect.Type
+	ptr uintptr
+	len int
 }
 
 func (s *shredder) nextTempID() TempID {
@@ -127,6 +136,10 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 		}
 		e = s.nextTempID()
 		confetti.pointers[ptr] = e
+		// Since no pointer is shredded twice, only cycles without pointers are endless.
+		outer := confetti.collections
+		confetti.collections = nil
+		defer func() { confetti.collections = outer }()
 		fields = ptr.Elem()
 		typ = fields.Type()
 	default:
@@ -179,6 +192,16 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 			vref = v
 			// TODO idk if tempid constraints are legit or not
 		case values:
+			coll := collection{fieldValue.Type(), fieldValue.Pointer(), fieldValue.Len()}
+			_, cyclic := confetti.collections[coll]
+			if cyclic && coll.len > 0 {
+				err = NewError("shredder.cyclicCollection", "type", coll.typ)
+				return
+			}
+			if confetti.collections == nil {
+				confetti.collections = map[collection]Void{}
+			}
+			confetti.collections[coll] = Void{}
 			for i, vv := range v {
 				var refFieldClaims []Claim
 				if attr.CollValue != "" {
@@ -211,6 +234,7 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 					claims = append(claims, Claim{E: e, A: attr.Ident, V: vref})
 				}
 			}
+			delete(confetti.collections, coll)
 			continue
 		default:
 			var refFieldClaims []Claim
-- 
2.43.0


From c57d3685cfa05fb150e6233d4983bb732f48a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 24/29] fix: write structs and their schema atomically

The schema of the structs in a request was written apart from their data, so it
survived when the data were rejected, and rejections responded without a
snapshot. Apply all of it at once, or none.
---
 internal/database/database.go | 35 +++++++++++++++++++++++++++++++++--
 internal/types/txn.go         |  3 +++
 pkg/database/impl.go          | 24 +++++++++---------------
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index de5adbe..de2c643 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -102,6 +102,39 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
+	db.lock.Lock()
+	defer db.lock.Unlock()
+	res = db.write(req)
+	return
+}
+
+func (db *indexDatabase) WriteAll(reqs []Request) (res Response) {
+	db.lock.Lock()
+	defer db.lock.Unlock()
+	nextID, eav, aev, ave, attrTypes := db.nextID, db.eav, db.aev, db.ave, db.attrTypes
+	attrsByID := maps.Clone(db.attrsByID)
+	attrsByIdent := maps.Clone(db.attrsByIdent)
+	attrUniques := maps.Clone(db.attrUniques)
+	attrCardManies := maps.Clone(db.attrCardManies)
+	idents := maps.Clone(db.idents)
+	res.Snapshot = db.read()
+	for _, req := range reqs {
+		res = db.write(req)
+		if res.Error != nil {
+			db.nextID, db.eav, db.aev, db.ave, db.attrTypes = nextID, eav, aev, ave, attrTypes
+			db.attrsByID = attrsByID
+			db.attrsByIdent = attrsByIdent
+			db.attrUniques = attrUniques
+			db.attrCardManies = attrCardManies
+			db.idents = idents
+			res.Snapshot = db.read()
+			return
+		}
+	}
+	return
+}
+
+func (db *indexDatabase) write(req Request) (res Response) {
 	rewrites := map[ID]ID{}
 	resolve := func(id ID) ID {
 		for {
@@ -112,8 +145,6 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 			id = to
 		}
 	}
-	db.lock.Lock()
-	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	// These are all of the idents which may have been given up.
diff --git a/internal/types/txn.go b/internal/types/txn.go
index ecfa16a..075815b 100644
--- a/internal/types/txn.go
+++ b/internal/types/txn.go
@@ -76,6 +76,9 @@ type Database interface {
 	Read() Snapshot
 	// Write tries to apply the request to the database.
 	Write(req Request) Response
+	// WriteAll tries to apply the requests to the database in order, atomically. The response is
+	// that of the last, or of the first to be rejected, in which case none are applied.
+	WriteAll(reqs []Request) Response
 }
 
 // Snapshot is an immutable set of datums. Snapshots are safe for concurrent use.
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index a9d07f1..b18eccf 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -56,6 +56,7 @@ func (db *localDatabase) Read() *Snapshot {
 }
 
 func (db *localDatabase) Write(req Request) (res Response) {
+	reqs := make([]types.Request, 0, len(req.Assertions)+1)
 	for _, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
 		if typ != nil && typ.Kind() == reflect.Pointer {
@@ -66,18 +67,10 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		claims, err := schemas.Analyze(typ)
 		if err != nil {
 			res.Error = err
+			res.Snap = db.Read()
 			return
 		}
-		// TODO holy non-atomicity, batman. Probably we should accumulate
-		// all claims and at least write them all in one batch?
-		// For the subsequent data claims, perhaps the internal db write
-		// should accommodate a separate "ddl" claims form and handle
-		// a total reversion if the data claims have an error?
-		ires := db.db.Write(types.Request{Claims: claims})
-		if ires.Error != nil {
-			res.Error = ires.Error
-			return
-		}
+		reqs = append(reqs, types.Request{Claims: claims})
 	}
 	ireq, ids, err := shredder.NewShredder(db.analyzer).Shred(shredder.Document{
 		Retractions: req.Retractions,
@@ -85,17 +78,18 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	})
 	if err != nil {
 		res.Error = err
+		res.Snap = db.Read()
 		return
 	}
-	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
+	ires := db.db.WriteAll(append(reqs, ireq))
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From b8244079a84746afe0c3714065c98ee98e5591ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 25/29] fix: resolve the idents of the unique values

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From c1546343577038ecc42ff2aaf40b05cb93560cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 26/29] fix: scan the least values of an index ordered by value

---
 internal/index/scan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/index/scan.go b/internal/index/scan.go
index be2db70..cda1a5a 100644
--- a/internal/index/scan.go
+++ b/internal/index/scan.go
@@ -3,12 +3,13 @@ package index
 import (
 	"cmp"
 	"iter"
+	"math"
 
 	. "github.com/dball/destructive/internal/types"
 )
 
 // CompareAll treats every datum as equal, so a Select driven by it yields the
-// entire tree (in its native sort order) starting from the zero datum.
+// entire tree (in its native sort order) starting from the least datum.
 func CompareAll[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 	return 0
 }
@@ -62,8 +63,8 @@ func mergeEAV(seqs ...iter.Seq[Datum]) iter.Seq[Datum] {
 // values stored in them.
 func (idx *CompositeIndex) All() iter.Seq[Datum] {
 	strings := idx.strings.Select(CompareAll[string], stringValuer.valuer, TypedDatum[string]{})
-	ints := idx.ints.Select(CompareAll[int64], intValuer.valuer, TypedDatum[int64]{})
+	ints := idx.ints.Select(CompareAll[int64], intValuer.valuer, TypedDatum[int64]{V: math.MinInt64})
 	uints := idx.uints.Select(CompareAll[uint64], refValuer.valuer, TypedDatum[uint64]{})
-	floats := idx.floats.Select(CompareAll[float64], floatValuer.valuer, TypedDatum[float64]{})
+	floats := idx.floats.Select(CompareAll[float64], floatValuer.valuer, TypedDatum[float64]{V: math.NaN()})
 	return mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 }
-- 
2.43.0


From 35c5d858657ee1bc1b6b058bcef3e2b33069bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 27/29] fix: load nothing for the id of no entity

---
 internal/structs/assemblers/assemblers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 03bc8f8..c07c048 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -147,6 +147,12 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		return
 	}
 
+	if id == 0 {
+		// No entity has this id, which would select every datum.
+		as.instances[instanceKey{id, value.Type()}] = reflect.ValueOf(nil)
+		return
+	}
+
 	// We know the A's in which we're interested, so we could be more selective (heh) here
 	// if we had reason to believe the snapshot E had many more A's.
 	foundAny := false
-- 
2.43.0


From ed057fa44f1e475d4fd4540283baf8c4b5543964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 28/29] fix: structs reached through pointers of named types
 are recorded once

---
 internal/structs/shredder/shredder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 96c7561..e4ca343 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -129,6 +129,8 @@ func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim,
 			err = NewError("shredder.nilStruct")
 			return
 		}
+		// The type of the pointer may have a name, which does not matter.
+		ptr = ptr.Elem().Addr()
 		ok := false
 		e, ok = confetti.pointers[ptr]
 		if ok {
-- 
2.43.0


From abb09b4430f9376334730fd543269e132da943c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 29/29] fix: load map entries of the same key in the same order
 always

A snapshot loaded a struct with any of the entities which have one key, chosen anew each time.
---
 internal/structs/assemblers/assemblers.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index c07c048..eeb282f 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -2,7 +2,10 @@
 package assemblers
 
 import (
+	"cmp"
+	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"time"
 
@@ -107,9 +110,11 @@ func (as *assembler) assembleAll() (err error) {
 	for key := range as.fieldsAwaitingValues {
 		as.setFieldsAwaitingValues(key)
 	}
-	for key, maes := range as.mapsAwaitingEntries {
+	// Entities may have the same key, so we must always add them in the same order.
+	keys := slices.SortedFunc(maps.Keys(as.mapsAwaitingEntries), func(a, b instanceKey) int { return cmp.Compare(a.id, b.id) })
+	for _, key := range keys {
 		if as.instances[key].IsValid() {
-			for _, mae := range maes {
+			for _, mae := range as.mapsAwaitingEntries[key] {
 				err = as.addEntityToMap(mae.mapKey, mae.m, key, mae.pointer, mae.mapHasPointers, true)
 				if err != nil {
 					return
-- 
2.43.0

