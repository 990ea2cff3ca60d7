#!/usr/bin/env python3
"""Puts the tables of DESIGN.md together: design/head.md, the rules of the checks (from evidence/), design/tail.md,
the planted bugs (design/seeds.md, made by selftest/seedtable.py).  Run all checks before this."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
M = json.load(open(D + "/MANIFEST.json"))
T = {}
for l in open(D + "/properties.jsonl"):
    p = json.loads(l); T[p["id"]] = p
HOW = {}
exec([l for l in open(D + "/mkmanifest.py") if l.startswith("HOW = ")][0])
out = open(D + "/design/head.md").read()
ev = os.environ.get("EVIDENCE", D + "/evidence")
rows = []
for c in M["checks"]:
    i = c["property"] if "property" in c else c["id"]
    e = json.load(open("%s/%s.json" % (ev, i)))
    rule = e["coverage"]["explanation"].split("rule: ", 1)[1]
    why = T[i]["why_tests_cant"]
    ass = "; ".join(e["assumptions"])
    rows.append("### %s %s (%s)\n\n%s.%s\n*Why tests cannot:* %s\n" % (i, T[i]["title"], HOW[i], rule[0].upper() + rule[1:], "\n*Taken for granted:* " + ass + "." if ass else "", why))
out = out.replace("@@RULES@@", "\n".join(rows))
out = out.replace("@@NA@@", "\n".join("* %s, %s: %s." % (n["property"], T[n["property"]]["title"].lower(), n["reason"]) for n in M["not_applicable"]))
out = out.replace("@@SEEDS@@", open(D + "/design/seeds.md").read().strip())
open(D + "/DESIGN.md", "w").write(out)
