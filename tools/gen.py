#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os
from props import PROPS, NA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md, from a template, the properties, and the rules as reported by a run
ev = os.environ.get("EVIDENCE", os.path.join(here, "evidence"))
out = []
for p in PROPS:
    f = os.path.join(ev, p["id"] + ".json")
    rules = json.load(open(f))["coverage"]["rules"] if os.path.exists(f) else {}
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("Method: " + p["technique"] + ".\n")
    for n, r in rules.items():
        out.append("- `%s`: %s (%d obligations in %d functions on the current tree, %d not decided)." % (n, r["rule"].rstrip("."), r["instances"], r.get("functions", 0), r.get("not_decided", 0)))
    out.append("\nBounds and trust: " + p["note"])
    out.append("\nBeyond tests: " + p["why_tests_cant"] + "\n")
na = ["- %s %s: %s" % (p["id"], p["title"], p["reason"]) for p in NA]
seeded = ["| change | property | needs | reported by |", "|---|---|---|---|"]
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeded.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), ", ".join(m.get("caught_by", [])) or m["property"]))
t = open(os.path.join(here, "tools", "DESIGN.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@NA@@", "\n".join(na)).replace("@@SEEDED@@", "\n".join(seeded))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
