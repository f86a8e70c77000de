#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plans.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/vp.py setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ specification in spec/, checked with TLC; harness/ replays behaviours of the "
              "specification on the code in /repo and records what it did; TLC decides whether the "
              "recorded run is a behaviour of the specification. No hooks in /repo are needed."}
for p in props:
    if p in plans.PLANS:
        q = plans.PLANS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 tools/vp.py check %s quick" % p,
            "thorough_cmd": "python3 tools/vp.py check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": q.get("technique", plans.TECHNIQUE),
            "level": q["level"],
            "level_note": q.get("note", plans.NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": plans.NOT_YET.get(p, "check not built yet")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
