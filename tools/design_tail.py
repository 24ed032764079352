#!/usr/bin/env python3
"""Rewrite the generated end of DESIGN.md: findings, and planted changes with the checks that catch them (seeded/*/meta.json, tools/catches.json)."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/design_tail.py -->\n"
s = open(os.path.join(d, "DESIGN.md")).read().split(MARK)[0]
o = [MARK, "## Findings\n\nGenuine defects of the pinned revision, each shown by a generated case against the real code.\n\n"]
for l in open(os.path.join(d, "known_findings.jsonl")):
    e = json.loads(l)
    o.append("* **%s** (%s, %s) %s\n" % (e["id"], e["property"], e["status"], e["what"].split(e["property"], 1)[1].strip() if e["status"] == "fixed" else e["what"]))
try:
    c = json.load(open(os.path.join(d, "tools", "catches.json")))
except OSError:
    c = {}
o.append("\n## Planted changes\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
n = k = 0
for i in sorted(os.listdir(os.path.join(d, "seeded"))):
    m = json.load(open(os.path.join(d, "seeded", i, "meta.json")))
    n += 1
    k += bool(c.get(i))
    o.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), ", ".join(c.get(i, [])) or "-"))
o.append("\n%d planted, %d caught by the quick tier.\n" % (n, k))
open(os.path.join(d, "DESIGN.md"), "w").write(s + "".join(o))
