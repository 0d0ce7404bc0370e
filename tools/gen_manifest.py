#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "harness"))
from checks import CHECKS  # noqa: E402

TECHNIQUE = {
    "model_checking": "explicit-state exploration of the real code: all operation histories up to a depth, states merged by canonical key",
    "fault_enumeration": "exhaustive exploration of the real code: all operation histories up to a depth with every fault point enumerated",
    "exploration": "exhaustive enumeration of a bounded input space on the real code against a reference",
}
NOTE = ("Complete within the stated bounds (evidence says exhaustive true or false); nothing outside them. Trusts the reference model in the "
        "harness, the compiler, the sanitizers and 128-bit state hashing. Bounds: ")
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check %s --tier quick" % i,
        "thorough_cmd": "./check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", TECHNIQUE[c["level"]]),
        "level": c["level"],
        "level_note": NOTE + c["bounds"],
    })
doc = {"version": 1, "setup_cmd": "python3 -B harness/setup.py", "checks": checks, "not_applicable": na,
       "notes": "Needs g++ and python3 only. Builds go to the git-ignored .build directory."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
