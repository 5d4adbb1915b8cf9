#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT...: records a repaired defect."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 "known-findings.json")
d = json.load(open(p))
d["fixed"].append("fixed: property=%s %s %s" %
                  (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(p, "w"), indent=1)
