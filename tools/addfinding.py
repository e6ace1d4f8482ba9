#!/usr/bin/env python3
"""addfinding.py ID PROPERTY CAMPAIGN SIG REPLAYFILE WHAT  |  addfinding.py fixed PROPERTY COMMIT WHAT   (run by hand only)"""
import json
import sys

p = "/verif/known_findings.json"
k = json.load(open(p))
a = sys.argv[1:]
if a[0] == "fixed":
    k["fixed"].append("fixed: property=%s %s %s" % tuple(a[1:4]))
else:
    k["findings"] = [f for f in k["findings"] if f["id"] != a[0]]
    k["findings"].append({"id": a[0], "property": a[1], "campaign": a[2], "sig": a[3],
                          "case": json.load(open(a[4]))["case"], "what": a[5]})
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
