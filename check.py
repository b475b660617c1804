#!/usr/bin/env python3
"""Runs one model checking check.

  check.py <property> [quick|thorough]    explore, write evidence/<property>.json
  check.py --replay <file>                re-execute one recorded violation

Exit 0: the property held on everything explored.  Exit 1: violated, with a line
`VIOLATION property=<id> replay=<path>`.  Anything else: the check failed to run.
"""
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["LC_ALL"] = "C"
for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "LD_LIBRARY_PATH"):
    os.environ.pop(v, None)

import core  # noqa: E402
from core import CheckError  # noqa: E402


def known_findings(prop):
    """Keys of the findings recorded for this property (see known_findings.txt)."""
    keys = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            head = "known: property=%s key=[" % prop
            if line.startswith(head):
                key, _, what = line[len(head):].partition("] ")
                keys[key] = what
    return keys


def find_check(prop):
    for mod in ("numeric", "arrays", "concurrency", "configs", "wrappers", "diagnostics", "programs", "safety", "scripts"):
        if not os.path.exists(os.path.join(HERE, "lib", mod + ".py")):
            continue
        m = importlib.import_module(mod)
        if prop in m.CHECKS:
            return m.CHECKS[prop]
    raise CheckError("no check for property " + prop)


WHOLE = "whole exploration"


def whole_run_fails(cls, prop, tier, known):
    """For violations that a single replay does not show because they need the calls
    before them: explores everything a second time from the start."""
    with core.Context(tier) as ctx:
        chk = cls(ctx)
        chk.prop = prop
        return any(v["key"] not in known for v in chk.run().violations)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) not in (2, 3):
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cls = find_check(prop)
    t0 = time.time()
    with core.Context(tier) as ctx:
        chk = cls(ctx)
        chk.prop = prop
        res = chk.run()
        known = known_findings(prop)
        confirmed, unconfirmed, suppressed = [], [], []
        for v in res.violations:
            if v["key"] in known:
                suppressed.append(v)
            elif len(confirmed) >= 3:
                confirmed.append(v)     # enough replayed ones to report
            elif chk.replay(v["key"]):
                confirmed.append(v)
            else:
                unconfirmed.append(v)
        if unconfirmed and not confirmed and whole_run_fails(cls, prop, tier, known):
            confirmed = [dict(unconfirmed[0], key=WHOLE)]
        wall = time.time() - t0
        cov = {"states": res.states, "transitions": res.transitions,
               "traces_validated_against_impl": res.validated,
               "samples": res.samples[:12] or ["none"], "exhaustive": res.exhaustive,
               "bounds": res.bounds, "counts": res.counts}
        if chk.level == "fault_enumeration":
            for k in ("states", "transitions", "traces_validated_against_impl"):
                del cov[k]
            cov.update(evaluations=res.states, distinct_nontrivial=res.nontrivial, rule=res.rule)
        if res.worst:
            cov["worst"] = res.worst
        if res.trace_mismatches:
            cov["trace_mismatches"] = res.trace_mismatches[:8]
        cov.update(res.extra)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.level,
              "coverage": cov, "wall_s": round(wall, 3), "assumptions": chk.assumptions,
              "violations": len(confirmed)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs"
          % (prop, tier, res.states, res.transitions, res.validated, len(confirmed), wall))
    for v in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]))
    if confirmed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(confirmed[:8]):
            path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "key": v["key"], "text": v["text"]}, f, indent=1)
            print("  " + v["text"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        for v in unconfirmed:
            print("not reproduced: " + v["key"] + ": " + v["text"])
        return 3
    if res.states == 0:
        print("nothing explored")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    cls = find_check(r["property"])
    if r["key"] == WHOLE:
        bad = whole_run_fails(cls, r["property"], r.get("tier", "quick"), known_findings(r["property"]))
        return verdict(r, path, bad)
    with core.Context(r.get("tier", "quick")) as ctx:
        chk = cls(ctx)
        chk.prop = r["property"]
        chk.prepare_replay()
        bad = chk.replay(r["key"], verbose=True)
    return verdict(r, path, bad)


def verdict(r, path, bad):
    print(r["text"])
    if bad:
        print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(path)))
        return 1
    print("held")
    return 0


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        code = main()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
