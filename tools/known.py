#!/usr/bin/env python3
"""Developer tool: `known.py add PROP 'substring of construct' 'what fails'` records current findings (from out/) as known;
`known.py fixed PROP COMMIT 'what failed'` records a repaired defect.  Checks never run this."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else {"findings": []}
if sys.argv[1] == "add":
    prop, pat, what = sys.argv[2:5]
    n = 0
    for f in sorted(glob.glob(os.path.join(ROOT, "out", prop + "-*.json"))):
        j = json.load(open(f))
        if pat in j["construct"]:
            d["findings"] = [k for k in d["findings"] if not (k["property"] == prop and k.get("id") == j["construct"])]
            d["findings"].append({"property": prop, "status": "known", "id": j["construct"], "opsets": j["opsets"],
                                  "where": j["where"], "what": what or j["what"]})
            n += 1
    print(n, "recorded")
else:
    prop, commit, what = sys.argv[2:5]
    d["findings"].append({"property": prop, "status": "fixed", "line": "fixed: property=%s %s %s" % (prop, commit, what)})
d["findings"].sort(key=lambda k: (k["property"], k["status"], k.get("id", k.get("line"))))
json.dump(d, open(P, "w"), indent=1)
