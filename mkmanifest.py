#!/usr/bin/env python3
"""Writes MANIFEST.json from check.PLAN and the lists below."""
import json, os, check
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {}
checks, na = [], []
for i in ids:
    if i in check.PLAN:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " --tier thorough",
            "technique": "deterministic simulation with fault injection: seeded search over " + check.SEARCH[i],
            "level": "exploration",
            "level_note": check.NOTE[i] + " Sampled, not exhaustive; trusts the simulator in simrt/ and the reference "
                          "model; " + ("native machine code on x86-64, other machines as simulated by Miri."
                          if "machine" in check.PLAN[i] else "x86-64 only."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "none", "enable": "no hooks were needed: /repo is built as it is"},
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
