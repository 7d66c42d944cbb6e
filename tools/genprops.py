#!/usr/bin/env python3
"""Rewrites /verif/properties.jsonl and /verif/MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA, V
import checks

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + NA:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in checks.CHECKS:
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "technique": p["_technique"], "level": p["_level"], "level_note": " ".join(p["_note"].split())})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "no check registered yet"})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["_reason"]})
m["notes"] = "No hooks in /repo: drivers observe the library through its public C API. Language: TLA+ checked with TLC."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
