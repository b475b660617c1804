#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
FULL = "complete enumeration of single precision; double precision over a stated finite set"
NOTES = {
    "C08": "all pairs of a stated lattice, all single precision ordinates at abscissa +-1",
    "C34": "every 16th single precision pattern and stated double precision sets (thorough: all single precision patterns), five environments",
    "C36": "all of a fixed set of 2^21 arguments per function and of 2^12 per binade; the verdict is on averages",
    "C11": FULL, "C12": FULL, "C13": FULL + "; array functions and pairs over stated sets",
}
DEFAULT = "exhaustive within the bounds stated in DESIGN.md and in the evidence, executed on the real code"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = {}
for m in ("numeric", "arrays", "concurrency", "configs", "wrappers", "diagnostics", "programs", "safety", "scripts"):
    if os.path.exists(os.path.join(HERE, "lib", m + ".py")):
        checks.update(importlib.import_module(m).CHECKS)
out = {"version": 1, "setup_cmd": "python3 -c \"import sys\" && g++ --version >/dev/null && clang++ --version >/dev/null && cmake --version >/dev/null && ninja --version >/dev/null",
       "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "Every check is `python3 check.py <id> <tier>`; `python3 check.py --replay <file>` re-executes a recorded violation."}
for p in props:
    i = p["id"]
    if i not in checks:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    c = checks[i]
    out["checks"].append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(c, "technique", "explicit-state exploration of the real functions, exhaustive over the stated input space"),
        "level": c.level, "level_note": NOTES.get(i, FULL if i <= "C10" else getattr(c, "note", DEFAULT))})
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(props), "properties; missing:", [p["id"] for p in props if p["id"] not in checks])
