#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a check module is claimed,
the others are not applicable with the reason below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())

ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/sa/checks/%s.py" % (HERE, i.lower())) and i in TECH:
        t, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 -m sa.check %s" % i,
            "thorough_cmd": "python3 -m sa.check %s" % i,
            "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(
            i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 -m sa.facts", "checks": checks,
     "not_applicable": na}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
