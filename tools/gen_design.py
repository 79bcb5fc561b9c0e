#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md (between the marker comments): the repaired defects (from
known_findings.txt) and the planted bugs (from seeded/*/meta.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m: fixed.append("* **%s** `%s` %s" % m.groups())
rows = ["| planted bug | property | what it needs | what breaks | caught by |", "|---|---|---|---|---|"]
also = json.load(open(V + "/tools/seed_results.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], also.get(i, "not run")))
t = open(V + "/DESIGN.md").read()
def put(t, name, body):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    if "@@%s@@" % name in t: t = t.replace("@@%s@@" % name, a + "\n" + b)
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n" + body + "\n" + t[j:]
t = put(t, "FIXED", "\n".join(fixed)); t = put(t, "SEEDS", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
