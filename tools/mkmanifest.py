#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built for it yet")})
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    tech = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
    note = re.search(r'^NOTE = "(.*)"', src, re.M)
    doc = src.split('"""')[1].split("\n\n")[0].replace("\n", " ").strip()
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3-vt checks/run.py %s" % p["id"],
        "thorough_cmd": "env VERIF_TIER=thorough python3-vt checks/run.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": tech.group(1) if tech else "property-based testing: " + doc.split(":", 1)[1].strip(),
        "level": level,
        "level_note": note.group(1) if note else
        "Generated-input search against an explicit oracle; evidence counts cases and non-trivial cases. "
        "Absence of a violation is not a proof.",
    })
m = {"version": 1, "setup_cmd": "python3-vt tools/selfcheck.py", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
