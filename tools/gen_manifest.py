#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import plans
TECH = getattr(plans, "TECHNIQUE", {})
NOTE = getattr(plans, "LEVEL_NOTE", {})
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH.get(i, "property-based testing (random structured generation, explicit oracle, shrinking)"), "level": "exploration",
                       "level_note": NOTE.get(i, "Random exploration: holds on the generated cases only; trusts the harness oracle, gcc, the sanitizers and the system zstd.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
