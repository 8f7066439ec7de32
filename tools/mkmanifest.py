#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plans

root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": pl.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code are validated against it by TLC"),
            "level": "model_checking",
            "level_note": pl.get("note", "Every recorded execution must be a behaviour of the TLA+ specification; inputs are generated, so executions that were not recorded are not covered. Trusts TLC and the recorder's projection of the observed values."),
        })
    else:
        na.append({"property": i, "reason": "the check for it is still being built"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed: the library's public API shows every value the specification talks about."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
