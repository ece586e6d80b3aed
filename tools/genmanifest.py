#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks the harness registers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "one-step model monitor over generated write histories"
T = {
 "C01": ("held snapshots re-read under concurrent writes, with the race detector and scheduler perturbation",
         "Every snapshot held is re-read against what it answered first; races are those on executed interleavings."),
 "C02": ("race detector with scheduler perturbation over mixed concurrent workloads, results checked",
         "Happens-before races among the executed accesses are found whether or not they misbehaved; interleavings are sampled."),
 "C03": ("offline strict-serializability checker over recorded concurrent histories",
         "Complete for each recorded history (transaction ids give the order to check); histories are sampled."),
 "C04": ("twin databases: one also receives the rejected writes, all later responses compared", "Histories are sampled."),
 "C05": (MON + ", state compared datum by datum", "Complete for each executed write; histories are sampled."),
 "C06": (MON + ", uniqueness of every state and outcome", "Complete for each executed write; histories are sampled."),
 "C07": (MON + ", tempids against an independent unification", "Complete for each executed write; histories are sampled."),
 "C08": (MON + ", cardinality of every state and outcome", "Complete for each executed write; histories are sampled."),
 "C09": (MON + ", types of every datum and rejection of unresolved claims", "Complete for each executed write; histories are sampled."),
 "C10": ("round-trip monitor of easily confused values through writes and every query shape", "Values are sampled from pools of extremes and at random."),
 "C11": (MON + ", attribute declarations before and after", "Complete for each executed write; histories are sampled."),
 "C12": (MON + ", system datums against a hand-written list", "Complete for each executed write; histories are sampled."),
 "C13": ("every query compared to a filter over a full scan", "Complete for each query asked; queries and databases are sampled. Trusts the full scan, which C05 checks."),
 "C14": ("iteration monitor: order, determinism, interleaved and abandoned consumers, work done and goroutines left", "Sampled databases, queries and interruption points."),
 "C15": ("name registry monitor over histories of naming", "Every name ever used is resolved after every write; histories are sampled."),
 "C16": ("lookup monitor: held, given up, wrong and absent values in queries, claims and retractions", "Complete for each reference used; histories are sampled."),
 "C17": (MON + ", entity retractions", "Complete for each executed write; histories are sampled."),
 "C18": (MON + ", ids and the provenance of every datum", "Complete for each executed write; histories are sampled."),
 "C19": ("index against a sorted reference after every operation", "Sequences of operations are sampled."),
 "C20": ("round-trip monitor over generated struct types and values", "Struct types and values are sampled."),
 "C21": ("loads into generated struct types compared to a reading of the entity's datums", "Struct types and databases are sampled."),
 "C22": ("struct-level write monitor: the datums of each entity before and after", "Struct types and histories are sampled."),
 "C23": ("graph isomorphism monitor over recorded and loaded object graphs", "Graphs are sampled."),
 "C24": ("derived schemas compared to an independent derivation from generated struct types", "Struct types are sampled."),
 "C25": ("twin databases at the struct level, responses and states compared", "Histories are sampled."),
 "C26": ("struct-level write monitor over zero, empty, nil and untagged fields", "Struct types and values are sampled."),
 "C27": ("hostile inputs, each followed by probes that the database still serves", "Inputs are sampled; a process death or hang is a violation."),
 "C28": ("memory monitor: sentinels beside and deep copies of everything passed or returned", "Inputs are sampled."),
}
have = set()
for f in glob.glob(os.path.join(V, "harness", "*.go")):
    s = open(f).read()
    have |= set(re.findall(r'id: +"(C\d\d)"', s)) | set(re.findall(r'datumCheck\("(C\d\d)"', s))
titles = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in titles:
    if p not in have:
        na.append(dict(property=p, reason="Its check is not built yet."))
        continue
    t, n = T[p]
    checks.append(dict(property=p, quick_cmd="./check.py " + p, thorough_cmd="VERIF_TIER=thorough ./check.py " + p,
        evidence_file="evidence/%s.json" % p, technique="runtime monitoring: " + t, level="exploration",
        level_note=n + " Nothing is claimed of what was not executed; trusts the harness's model and the Go toolchain."))
json.dump(dict(version=1, setup_cmd="./check.py setup", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the harness is built into the module with go build -overlay. Scheduler perturbation is inserted into copies of /repo's current sources at check time."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
