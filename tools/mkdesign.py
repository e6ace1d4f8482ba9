#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, design_props.py, known_findings.json, seeded/ and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/design_props.py").read(), ns)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = json.load(open(V + "/known_findings.json"))
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
man = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    g, o, b, w = ns["T"][p["id"]]
    out += ["### %s %s%s" % (p["id"], p["title"], "" if p["id"] in claimed else " (not claimed)"), "",
            "* **Generated:** " + g, "* **Oracle:** " + o, "* **Bounds:** " + b, "* **Why tests cannot settle it:** " + w]
    for x in ns.get("NOTES", {}).get(p["id"], []):
        out.append("* **Note:** " + x)
    out.append("")
out += ["## Genuine defects repaired (`fix:` commits in /repo)", ""]
out += ["* " + f.replace("fixed: property=", "", 1) for f in known["fixed"]]
out += ["", "## Genuine defects recorded, not repaired (known_findings.json)", ""]
for f in known["findings"]:
    out.append("* `%s` (%s): %s. %s" % (f["id"], f["property"], f["what"], ns.get("WHY", {}).get(f["id"], "")))
out += ["", ns["FALSE"].strip(), "", "## Planted changes and which check catches them", "",
        "| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    f = V + "/seeded/" + s + "/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), caught.get(s, "not recorded")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
