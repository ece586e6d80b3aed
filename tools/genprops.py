#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
DB="internal/database/database.go"; SN="internal/database/snapshot.go"; HL="internal/database/helpers.go"
IX="internal/index/index.go"; TY="internal/index/typed.go"; CP="internal/index/compare.go"; SC="internal/index/scan.go"
SYS="internal/sys/sys.go"; TX="internal/types/txn.go"; TT="internal/types/types.go"
AS="internal/structs/assemblers/assemblers.go"; MO="internal/structs/models/models.go"; SM="internal/structs/schemas/schemas.go"
SH="internal/structs/shredder/shredder.go"; SF="internal/structs/shredder/field.go"; PI="pkg/database/impl.go"; PD="pkg/database/database.go"; IT="internal/iterator/iterator.go"
P=[]
def p(id,title,st,over,q,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","A snapshot never changes",
 "A snapshot, whether obtained by reading the database or from a write's response, gives the same answer to the same query every time it is asked, for as long as it is held. No later or concurrent write, accepted or rejected, and no activity on other snapshots, changes any datum, count, ident or struct it yields.",
 ["histories","schedules","inputs"],"every history of reads and writes of any kind (asserts, replacements, retractions, schema changes) after and while a snapshot is held",
 "one test takes one snapshot and makes one replacement; copy-on-write sharing errors need node splits, deletions, schema growth and many generations of snapshots to show",
 [DB,SN,IX,TY],[("copy-on-write clone of all three indexes before a write and for each snapshot",DB+": Write, read"),("clone of the ident and attribute maps",DB+": read"),("btree clone",TY+": Clone")],
 ["Snapshot.Select/Count/Has/ResolveIdent/ResolveAttrIdent","TypedSnapshot.Find"])
p("C02","Concurrent use is safe",
 "Any number of goroutines may read and write one database, query the same or different snapshots, and load structs from them, at the same time, at both the datum level and the struct level. No such use has a data race, panics, deadlocks or corrupts a result.",
 ["schedules","histories"],"every interleaving of concurrent reads, writes (including schema-changing ones), snapshot queries and struct loads",
 "no existing test starts a goroutine",
 [DB,SN,IX,TY,MO,PI,PD],[("database lock around snapshotting and writing",DB+": Read, Write"),("snapshots hold private clones",DB+": read"),("struct model cache",MO+": cachingAnalyzer")],
 ["race detector reports","panics, lost progress and wrong results in goroutines driving the public interfaces"])
p("C03","Reads and writes are strictly serializable",
 "All accepted writes take effect one at a time in transaction-id order, and that order respects real time: a write or read that starts after a write returned sees it. Every snapshot, including the one in each write's response, is exactly the state after some prefix of that order; a response's snapshot is the state immediately after (or, when rejected, at) that write.",
 ["schedules","histories"],"every concurrent history of writes, rejected writes and reads from any number of clients",
 "tests are sequential; lost updates, torn snapshots and stale reads exist only in concurrent histories",
 [DB,SN],[("single writer lock held from resolving the claims to taking the response snapshot",DB+": Write"),("index swap at the end of the write",DB+": Write")],
 ["recorded call/return history of Write and Read with the contents of the snapshots they returned"])
p("C04","A rejected write leaves no trace",
 "A write that is rejected reports an error, no transaction id and no tempids, and its response still carries a snapshot of the unchanged database. Afterwards the database's data, schema, idents, uniqueness rules and every later write's outcome are exactly as if the rejected write had never been made, wherever in the request the offending claim or retraction stands.",
 ["inputs","histories"],"every rejected request (each kind of fault, at each position among valid claims and retractions) in every history, followed by any writes",
 "one test rejects a single bad claim and re-reads one datum; nothing checks caches, id allocation or requests that fail after many valid claims",
 [DB],[("error exit before the cloned indexes and caches are installed",DB+": Write"),("id allocator rollback",DB+": Write")],
 ["Response of the rejected write","full contents and later outcomes compared with a twin database that never saw the request"])
p("C05","An accepted write makes exactly the claimed change",
 "After an accepted write the database holds precisely the earlier datums, plus every asserted datum, minus every retracted datum, minus the previous value of each single-valued attribute that was asserted with a different value; no other datum appears, disappears or changes. Asserting a datum already present and retracting one that is absent have no effect.",
 ["inputs","histories"],"every accepted request over every database state: all value types, entity reference forms, attribute reference forms and mixtures of assertions and retractions",
 "tests check one or two datums after a write and never that nothing else changed",
 [DB,TY],[("sequential application of resolved datums to cloned indexes",DB+": Write"),("replace-if-different for cardinality one",DB+": Write"),("insert keeps the extant datum",TY+": Insert")],
 ["full datum dump before and after each Write compared with a reference model"])
p("C06","Unique attributes never repeat a value",
 "At no time do two entities hold the same value for a unique attribute, no matter how the claims arrive: in one request or several, by tempid, id, ident, lookup ref or transaction, for identity and value uniqueness and every value type. A write that would cause this is rejected, while an entity restating a value it already holds, or taking one that has been given up, is accepted.",
 ["inputs","histories"],"every request, including several claims to the same value within one request, over every history of assertion, replacement and retraction",
 "tests make one collision between two requests via tempids; intra-request duplicates, concrete entity references and released values are never tried",
 [DB,SYS],[("lookup of each claimed value in the unique value index",DB+": Write"),("value index maintained on assert, replace and retract",DB+": Write")],
 ["Write outcome","full datum dump grouped by (unique attribute, value)"])
p("C07","Tempids resolve consistently",
 "Within a request each tempid denotes one entity in every position: the entity already holding an identity-unique value asserted of it, the same entity as another tempid claiming the same such value, and otherwise a brand-new entity. The response maps every tempid used to the id actually recorded; a tempid whose identities name two different existing entities, or which claims a value-unique value held by another entity, causes rejection.",
 ["inputs","histories"],"every assignment of tempids to claim subjects and values, with any number of identity and value-unique claims, in any claim order",
 "tests use one tempid with one identity attribute; order, multiple identities, tempids in value position and forward references are untested",
 [DB],[("tempid allocation table",DB+": evaluateClaim"),("identity rewrites applied to subjects and values",DB+": Write")],
 ["Response.TempIDs","full datum dump after the write"])
p("C08","Cardinality is enforced",
 "An entity never holds more than one value of a cardinality-one attribute: a new value replaces the old one whatever its type, sign or magnitude, and a request giving two different values for it is rejected. A cardinality-many attribute holds exactly the set of values asserted and not since retracted.",
 ["inputs","histories"],"all values of all six types and all sequences of assertions, replacements and retractions",
 "one replacement of a small positive int and one two-element string set are tested",
 [DB,IX],[("replacement of the extant (entity, attribute) datum",DB+": Write"),("first datum for an entity-attribute prefix",IX+": First")],
 ["count of datums per entity and attribute in the full dump","Write outcome"])
p("C09","Every stored value has its attribute's type",
 "Every datum's attribute is a declared attribute and its value has that attribute's declared type. Claims with a value of another type, a missing value, or an entity, attribute or value reference that does not resolve, are rejected with an error.",
 ["inputs","histories"],"every pairing of the six attribute types with every kind of claim value and every kind of valid or dangling reference, asserted or retracted",
 "one mismatched pairing and one dangling reference per position are tested",
 [DB,SYS],[("type check of the resolved value",SYS+": ValidValue"),("reference resolution",DB+": evaluateClaim")],
 ["Write outcome","types of all datums in the full dump"])
p("C10","Values are stored and returned exactly",
 "Every value read back equals the value written: any string bytes, any 64-bit int, any float including negatives, infinities and not-a-number, both bools, any ref, and any instant to the millisecond, in UTC. Values that differ are never confused with each other, and values that are equal are found by every query that names them.",
 ["inputs"],"the whole value domain of each type, in single- and many-valued, unique and plain attributes, alone and alongside neighbouring values",
 "each type is tried with one or two small positive values",
 [IX,TY,CP,SN],[("conversion to and from the stored scalar",IX+": TypeValuer"),("value ordering",CP+": LessEAV and friends"),("prefix scan start values",IX+": Select/First/Count")],
 ["Select/Has/Count and lookup refs over boundary and random values"])
p("C11","Attribute declarations are complete and immutable",
 "Every attribute has an ident and a valid value type, and once declared its ident, type, cardinality and uniqueness can be neither changed nor added to nor retracted, by id, ident, tempid or retraction of the entity. Declaring it again identically is accepted and changes nothing: the attribute keeps its identity and existing data stays visible and constrained under its name; incomplete or invalid declarations are rejected.",
 ["inputs","histories"],"every declaration, redeclaration and attempted alteration of attributes by every reference form, interleaved with data",
 "tests try a type change and a type retraction by id only, and never look at data after a redeclaration",
 [DB,HL,SYS],[("attribute change checks",DB+": Write, invariant switch"),("attribute caches",DB+": attrsByID, attrTypes, attrUniques, attrCardManies, idents"),("validity predicates",SYS+": ValidAttrType, ValidUnique, ValidAttrCardinality")],
 ["Write outcome","schema datums in the full dump","ResolveIdent/ResolveAttrIdent","behaviour of data claims under the attribute's name"])
p("C12","The system namespace is untouchable",
 "No write can claim an ident under sys/, or assert or retract anything about the system's own entities, by any form of reference. The system datums and idents are the same in every snapshot of every database, forever.",
 ["inputs","histories"],"every claim and retraction aimed at a system entity or ident, directly or by tempid resolution, in every history",
 "one test claims a sys/ ident on a new entity; claims about existing system entities are never tried",
 [DB,SYS],[("ident prefix check",SYS+": ValidUserIdent"),("bootstrap datums",SYS+": Datums, Attrs, Idents")],
 ["Write outcome","system portion of the full dump in every snapshot"])
p("C13","Every query equals a filter over all datums",
 "For any claim, selecting yields exactly the snapshot's datums matching each given entity, attribute and value, once each; counting gives their number and testing gives whether there are any. An omitted field matches everything, while a field that names nothing (an unknown ident, an unmatched lookup ref, a value of the wrong type) matches nothing.",
 ["inputs","histories"],"every combination of present/absent fields, every reference form, resolvable or not, over any database contents including several databases' worth of schema",
 "one fixed two-datum entity is queried in each shape; negatives, wrong types, unresolvable references and shared values are not",
 [SN,IX,TY],[("choice of index and residual filter per claim shape",SN+": access"),("claim resolution",SN+": resolveClaim"),("prefix scans",IX+": Select, Count")],
 ["Select, Count and Has for generated claims versus brute-force filtering of the full dump"])
p("C14","Results are ordered and iteration is lazy",
 "Query results come in a deterministic order: those for one entity, and the whole database, by entity, then attribute, then value, and those for one attribute by entity, then value. A result may be iterated repeatedly, by several consumers, and abandoned at any point; abandoning one yields a prefix, does no further work, leaks nothing and affects no one else.",
 ["inputs","schedules","histories"],"every query shape, every abandonment point, nested and repeated iteration",
 "two fixed orderings are tested at index level, and early termination only for concatenation of slices",
 [SC,IX,TY,IT,SN],[("merge of typed sub-sequences",SC+": mergeEAV"),("concatenation",IT+": Concat"),("early exit of scans",TY+": Select")],
 ["sequence of datums seen by consumers stopping at each position","live goroutine and pull-coroutine count"])
p("C15","Idents always resolve to their current entity",
 "In every snapshot, and in every write, an ident resolves to the entity that currently holds it and to nothing if none does, after any sequence of naming, renaming and retracting; resolving an attribute's id gives its ident. Retracting a name an entity does not hold changes nothing.",
 ["histories","inputs"],"every history of ident claims, renames, ident retractions and entity retractions, for plain entities and attributes",
 "tests only ever resolve idents just created; none renames or retracts one",
 [DB,SN],[("ident cache updates on write",DB+": Write, identCreates/identDeletes"),("snapshot copy",DB+": read")],
 ["ResolveIdent, ResolveAttrIdent and ident references in claims versus the ident datums in the dump"])
p("C16","Lookup refs find exactly the current holder",
 "A lookup ref, wherever it is used in a claim, retraction or query, denotes the entity that holds that value of that unique attribute at that moment, and nothing otherwise: not for a value given up or never held, a value of the wrong type, an unknown attribute, or one that is not unique.",
 ["inputs","histories"],"lookup refs over every unique attribute type and every value, in subject, attribute, value and retraction positions, through any history of value changes",
 "one string value present and one absent are tried",
 [DB,SN],[("resolution through the unique value index",DB+": resolveLookupRef; "+SN+": resolveLookupRef")],
 ["Write outcome and effect, and query results, for generated lookup refs versus the dump"])
p("C17","Retracting an entity removes it and nothing else",
 "Retracting entities, by any set of references that all name the same entity, removes every datum about those entities and no other datum; entities they refer to, and references to them, stay. A retraction with no reference, an unresolvable one, or references to different entities is rejected as a whole; an attribute or system entity cannot be retracted.",
 ["inputs","histories"],"every set of entities and every combination of id, ident and lookup ref constraints, over entities with any mix of attributes",
 "tests retract entities found by one lookup ref and check one or two datums",
 [DB],[("constraint resolution and expansion to claims",DB+": Write, retractions")],
 ["full dump before and after","Write outcome"])
p("C18","Ids are never reused and provenance is exact",
 "Each accepted write gets a transaction id greater than every id issued before, and every id issued for a transaction or new entity is new. Each datum's transaction is the one that introduced it, and stays so until that datum is removed, however often it is restated.",
 ["histories","inputs"],"every history of accepted and rejected writes, with restatement of values in equivalent forms (instants in other zones or with sub-millisecond parts)",
 "tests compare at most two transaction ids and never a restated datum's transaction",
 [DB,TY],[("id allocation",DB+": allocateID"),("no-op detection on restatement",DB+": Write"),("insert keeps the extant datum",TY+": Insert")],
 ["Response.ID, Response.TempIDs and the T of every datum along histories"])
p("C19","An index is a sorted set",
 "For every index order, value type and sequence of inserts and deletes, an index holds exactly the inserted and not deleted entity-attribute-value triples with the transaction that first introduced them; find, first, count, selection by any prefix its order supports, and full scan all agree with it, and such a selection comes in the index's order. A clone and its original evolve independently.",
 ["inputs","histories"],"all operation sequences, tree degrees, clone points, value types and supported prefixes, including extreme values",
 "a handful of fixed small indexes are tested, mostly of ascending positive values",
 [IX,TY,CP,SC],[("composite of typed btrees",IX+": CompositeIndex"),("comparators",CP),("merge",SC+": mergeEAV")],
 ["Find/First/Count/Select/All after each operation versus a reference sorted slice"])
p("C20","Recorded structs load back equal",
 "A struct recorded in a new database loads back by its id equal to what was recorded, for any supported combination of scalar fields, pointers, nested structs, slices of structs or scalars (in order), and maps of structs or struct pointers keyed by a scalar attribute, to any depth. Instants are equal to the millisecond and empty collections load as empty.",
 ["inputs","programs"],"all supported struct types and all values of them",
 "no existing test records a struct and loads it back beyond a struct of one string; assembling and shredding are tested apart on single shapes",
 [SH,SF,AS,MO,SM,PI],[("shredding fields to claims",SH+": assert"),("assembling datums into fields",AS+": assemble"),("rank attribute for slice order",SH+"; "+AS)],
 ["Database.Write then TypedSnapshot.Find over generated struct types and values"])
p("C21","Any struct type sees the same facts",
 "Loading an entity into any struct type sets each field that names an attribute the entity holds from the entity's current facts, leaves every other field zero, and sets the id field, regardless of which struct type recorded it or of field order. Loading an entity with no facts yields nothing, and loading never changes the database.",
 ["programs","inputs"],"all pairs of recording and loading struct types whose fields agree with the attributes' types",
 "one struct with a single overlapping field is loaded",
 [AS,MO,PD],[("field lookup by attribute ident",AS+": assemble; "+MO+": Attr")],
 ["TypedSnapshot.Find into generated struct types versus the datums of the entity"])
p("C22","Recording a struct updates one entity in place",
 "Recording a struct that has an id, or identity-unique fields matching an existing entity, updates that entity's given attributes and leaves its others, and every other entity, untouched; otherwise it creates one new entity. Conflicting identities, a value-unique value held by another entity (or by any entity when no id is given), and an unknown id are rejected.",
 ["inputs","histories"],"all histories of recordings through several struct types with ids, identity and unique fields",
 "one rename by id is tested; identity fields in structs never reach a database in any test",
 [PI,SH,DB,SM],[("id field resolution",SH+": assert"),("schema claims before each write",PI+": Write"),("identity resolution",DB+": Write")],
 ["Database.Write responses and TypedSnapshot.Find of all known entities versus a keyed model"])
p("C23","Graphs keep their shape",
 "A struct reached through the same pointer several times in one request, including through cycles, is recorded as one entity; distinct structs without a shared identity are recorded as distinct entities. Loading a graph in which entities are shared, nested by value, inside collections or cyclic terminates and shows every reached entity complete.",
 ["inputs","programs"],"all finite graphs of structs linked by pointers, values, slices and maps, with sharing and cycles",
 "one two-node cycle is tested in each direction",
 [SH,SF,AS],[("pointer registry",SH+": confetti.pointers; "+SF+": getFieldValue"),("allocation and deferred entries",AS+": assemble, addEntityToMap, addEntityToSlice")],
 ["number of entities and refs recorded, and the reachable loaded graph, versus the input graph"])
p("C24","A struct type determines its schema",
 "The schema derived from a struct type declares exactly the attributes its tagged fields, and those of every struct type reachable from it, need, with the right type, cardinality and uniqueness, and nothing for untagged fields. It is accepted by a database, accepted again, and sufficient to record any value of the type; unsupported types, malformed tags, and types which contradict what the database has declared are rejected with an error.",
 ["programs"],"all struct types, including recursive ones and ones naming an attribute in several places",
 "eight fixed types are analyzed and compared with literal claims; none is recursive through more than one type or repeats an attribute",
 [SM,MO],[("type graph walk",SM+": Analyze"),("tag parsing",MO+": parseAttrField, parseAttrTag")],
 ["claims returned by the schema analyzer, interpreted as a set of attributes","Write outcome when they and instances are recorded"])
p("C25","Struct writes are all or nothing and fully reported",
 "A struct-level write applies all of its assertions and retractions, or reports an error and applies nothing: no data and no attribute declaration survives a rejected request. Every response carries a snapshot of the database after the write, or as it was when rejected, and an accepted one lists one id per assertion, in order, each naming the entity recorded for it.",
 ["inputs","histories"],"all requests mixing valid and invalid assertions and retractions of any struct types, in any order",
 "tests never reject a struct-level write",
 [PI,PD],[("schema claims then data claims",PI+": Write"),("id mapping",PI+": Write")],
 ["Response of Database.Write","later writes and loads compared with a twin database that never saw the rejected request"])
p("C26","Absent, empty and untagged fields are treated as declared",
 "Recording a struct asserts exactly one value per tagged scalar field, including zero values, except that nil pointers, and empty values of fields marked to ignore them, assert nothing and leave the entity as it was. Fields without an attribute tag are ignored on recording and left alone on loading.",
 ["inputs","programs"],"all combinations of field kinds, tags and zero or non-zero values",
 "one struct per directive is tested; no test has an untagged field",
 [SH,SF,MO],[("ignoreempty and nil handling",SH+": assert; "+SF+": getFieldValue"),("untagged field handling",MO+": Analyze")],
 ["claims made for generated structs and the resulting datums"])
p("C27","Bad input is refused, not fatal",
 "No request, query or struct, however malformed, makes a database panic, hang or stop serving: writes answer with an error, queries with no match, and loads with nothing. After any such input every other operation works as before.",
 ["inputs","fault_sequences"],"all malformed requests and queries: nil and mistyped references and values, contradictory claims, wrong-kind structs, loads into struct types that disagree with the data",
 "seven fixed error codes are tested, all for well-formed claims",
 [DB,SN,IX,AS,MO,SH,PI],[("claim evaluation",DB+": evaluateClaim"),("claim resolution",SN+": resolveClaim"),("model analysis errors",MO+": Analyze")],
 ["panics and hangs at the public interfaces","a probe write and query after each hostile input"])
p("C28","Callers and the database share no memory",
 "A write never modifies the request, claims, retractions or structs it is given, nor any memory next to them; and changing them, or anything a response or load returned, after the call changes nothing in the database or in any other result.",
 ["inputs","histories"],"all requests, with spare slice capacity, shared backing arrays and pointers, mutated at any time after the call",
 "no test inspects a request after writing or mutates a result",
 [DB,AS,SH,PI],[("claims accumulated for the write",DB+": Write"),("value copies on load",AS+": assemble")],
 ["deep comparison of requests before and after","snapshots and loads after mutating inputs and outputs"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
