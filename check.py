#!/usr/bin/env python3
"""Runs one property's check against /repo's working tree.

  check.py <property>                  as registered in MANIFEST.json (VERIF_SEED, VERIF_TIER)
  check.py <property> --replay FILE    reruns the case a violation reported
  check.py setup                       builds every variant of the harness

Exit 0: the property held on everything explored. Exit 1: it did not, and a line says
VIOLATION property=<id> replay=<path>. Exit 2: the check itself failed, or saw too little.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MODULE = "github.com/dball/destructive"

# Each check runs its workload in one or more builds of the same harness:
#   plain  an ordinary build
#   race   with the race detector
#   sched  with calls to the scheduler inserted throughout the code under test, and the race detector
PLAN = {
    "C01": ["plain", "sched"],
    "C02": ["race", "sched"],
    "C03": ["plain", "sched"],
}
DEFAULT = ["plain"]


class CheckError(Exception):
    pass


def go(args, **kw):
    return subprocess.run(["bash", "-c", '. /opt/vp/env.sh; cd %s; exec go "$@"' % REPO, "go"] + args,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(variant, work):
    """Builds the harness with the code under test, from /repo as it is now."""
    replace = {}
    for f in glob.glob(os.path.join(VERIF, "harness", "*.go")):
        replace[os.path.join(REPO, "internal/vrt", os.path.basename(f))] = f
    if variant == "sched":
        tool = os.path.join(work, "instrument")
        trep = {os.path.join(REPO, "internal/vrtinstrument/main.go"): os.path.join(VERIF, "tools/instrument/main.go")}
        ov = os.path.join(work, "tool.json")
        json.dump({"Replace": trep}, open(ov, "w"))
        r = go(["build", "-mod=readonly", "-overlay", ov, "-o", tool, "./internal/vrtinstrument"])
        if r.returncode != 0:
            raise CheckError("building the instrumenter:\n" + r.stdout)
        out = os.path.join(work, "instrumented")
        os.makedirs(out)
        r = subprocess.run([tool, REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("instrumenting:\n" + r.stdout)
        replace.update(json.load(open(os.path.join(out, "replace.json"))))
        replace[os.path.join(REPO, "internal/vsched/vsched.go")] = os.path.join(VERIF, "tools/vsched/vsched.go")
    overlay = os.path.join(work, variant + ".json")
    json.dump({"Replace": replace}, open(overlay, "w"))
    exe = os.path.join(work, "vrt-" + variant)
    args = ["build", "-mod=readonly", "-overlay", overlay, "-o", exe]
    if variant in ("race", "sched"):
        args.append("-race")
    r = go(args + ["./internal/vrt"])
    if r.returncode != 0:
        raise CheckError("building the harness:\n" + r.stdout)
    return exe


def repo_frames(text):
    """Whether a stack has frames of the code under test, as opposed to the harness alone."""
    for m in re.finditer(re.escape(MODULE) + r"/(internal|pkg)/([a-z]+)[./(]", text):
        if m.group(2) not in ("vrt", "vsched"):
            return True
    return False


def run(exe, variant, prop, seed, tier, work, case=None, timeout=800):
    """Runs one build, returning its report, race reports and fatal errors."""
    tag = "%s-%s" % (variant, "all" if case is None else case)
    status = os.path.join(work, "status-" + tag)
    os.makedirs(status, exist_ok=True)
    out = os.path.join(work, "report-%s.json" % tag)
    if os.path.exists(out):
        os.unlink(out)
    racelog = os.path.join(work, "race-" + tag)
    args = [exe, "-property", prop, "-seed", str(seed), "-tier", tier, "-out", out, "-status", status]
    if variant in ("race", "sched"):
        args.append("-race-build")
    if case is not None:
        args += ["-case", str(case)]
    env = dict(os.environ, GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + racelog,
               VSCHED_SEED=str(seed))
    errlog = os.path.join(work, "stderr-" + tag)
    timed_out = False
    with open(errlog, "w") as ef:
        try:
            p = subprocess.run(args, stdout=subprocess.DEVNULL, stderr=ef, env=env, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, timed_out = -1, True
    stderr = open(errlog, errors="replace").read()
    report = None
    if os.path.exists(out):
        report = json.load(open(out))
    races = []
    for f in sorted(glob.glob(racelog + ".*")):
        text = open(f, errors="replace").read()
        for block in text.split("=================="):
            if "WARNING: DATA RACE" in block:
                races.append(block.strip())
        os.unlink(f)
    inflight = []
    for f in glob.glob(os.path.join(status, "worker*")):
        try:
            n = int(open(f).read().split()[0])
            if n >= 0:
                inflight.append(n)
        except (IndexError, ValueError):
            pass
    return dict(rc=rc, report=report, races=races, stderr=stderr, inflight=inflight, timed_out=timed_out)


def crash_text(stderr):
    for mark in ("fatal error:", "panic:", "runtime: goroutine stack exceeds", "unexpected fault", "SIGSEGV"):
        i = stderr.find(mark)
        if i >= 0:
            return stderr[i:]
    return ""


def dedupe_races(races):
    seen = {}
    for block in races:
        frames = re.findall(r"^  ((?:github\.com|main)[^\s(]*)", block, re.M)
        seen.setdefault(tuple(frames[:6]), block)
    return list(seen.values())


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def check(prop, seed, tier, replay=None):
    started = time.time()
    work = tempfile.mkdtemp(prefix="vrt-")
    violations, errors, reports = [], [], []
    race_total = 0
    try:
        variants = PLAN.get(prop, DEFAULT)
        if replay:
            variants = [replay["variant"]]
        for variant in variants:
            exe = build(variant, work)
            case = replay.get("case") if replay else None
            if case is not None and case < 0:
                case = None
            budget = 800 if tier == "quick" else 6 * 3600
            r = run(exe, variant, prop, seed, tier, work, case=case, timeout=budget)
            rep = r["report"]
            if rep is None:
                text = crash_text(r["stderr"])
                if r["timed_out"]:
                    errors.append("%s build: the run took too long" % variant)
                elif text and repo_frames(text) and "out of memory" not in text[:200]:
                    # Find which of the cases then running it was.
                    culprit, what = -1, text
                    for n in sorted(r["inflight"])[:16] if case is None else []:
                        again = run(exe, variant, prop, seed, tier, work, case=n, timeout=300)
                        if again["report"] is None and crash_text(again["stderr"]):
                            culprit, what = n, crash_text(again["stderr"])
                            break
                    violations.append(dict(property=prop, seed=seed, tier=tier, variant=variant,
                                           case=culprit if case is None else case,
                                           what=["the process died: " + what[:3000]], trace=[what[:30000]]))
                else:
                    errors.append("%s build: exit %s without a report\n%s" % (variant, r["rc"], r["stderr"][-3000:]))
            else:
                reports.append((variant, rep))
                for v in rep["violations"] or []:
                    v["variant"] = variant
                    violations.append(v)
                for h in rep["harness_errors"] or []:
                    errors.append("%s build: %s" % (variant, h))
                for s in rep["short"] or []:
                    errors.append("%s build: %s" % (variant, s))
            races = dedupe_races([b for b in r["races"] if repo_frames(b)])
            strange = [b for b in r["races"] if not repo_frames(b)]
            race_total += len(races)
            if strange:
                errors.append("%s build: a race within the harness:\n%s" % (variant, strange[0][:3000]))
            for block in races[:3]:
                violations.append(dict(property=prop, seed=seed, tier=tier, variant=variant, case=-1,
                                       what=["data race: " + block[:2500]], trace=[block]))
            if violations:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop)
    fresh = []
    for v in violations:
        hit = [k for k in known if any(k in w for w in v["what"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            fresh.append(v)
    violations = fresh

    if not replay:
        write_evidence(prop, seed, tier, reports, violations, race_total, time.time() - started)
    if violations:
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            if replay:
                path = sys.argv[3]
            else:
                json.dump(v, open(path, "w"), indent=1)
            print("case %s of the %s build, seed %s:" % (v["case"], v["variant"], v["seed"]))
            for w in v["what"][:4]:
                print("  " + w[:2000].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for e in errors:
        print("ERROR: " + e)
    if errors:
        return 2
    n = sum(rep["cases"] for _, rep in reports)
    print("property %s held on %d cases (%.1fs)" % (prop, n, time.time() - started))
    return 0


def write_evidence(prop, seed, tier, reports, violations, races, wall):
    counts, samples, builds = {}, [], {}
    distinct = evaluations = 0
    rule = ""
    for variant, rep in reports:
        evaluations += rep["cases"]
        distinct = max(distinct, rep["distinct"])
        rule = rep["rule"]
        builds[variant] = rep["cases"]
        for k, n in (rep["counts"] or {}).items():
            counts[k] = counts.get(k, 0) + n
        samples += [s[:1500] for s in (rep["samples"] or [])]
    coverage = dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule, samples=samples[:6],
                    observations=counts, cases_by_build=builds)
    if any(v in ("race", "sched") for v, _ in reports):
        coverage["race_reports"] = races
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=["what was not executed was not judged",
                           "the model and the harness state the documentation correctly"],
              wall_s=round(wall, 2), violations=len(violations))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        work = tempfile.mkdtemp(prefix="vrt-")
        try:
            for variant in ("plain", "race", "sched"):
                build(variant, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print("built")
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        v = json.load(open(sys.argv[3]))
        return check(prop, v["seed"], v["tier"], replay=v)
    return check(prop, seed, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
