#!/usr/bin/env python3
"""fixed.py PROP COMMIT WHAT: record a repaired defect in known_findings.json."""
import sys, json, os
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f)); prop, commit, what = sys.argv[1:4]
if not any(x.get("commit") == commit and x["property"] == prop for x in d["findings"]):
    d["findings"].append({"id": "F%02d" % (len(d["findings"]) + 1), "property": prop, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(f, "w"), indent=1)
