#!/usr/bin/env python3-vt
"""seedtable.py RESULTS: the table of section 5 of DESIGN.md from the seeds'
meta.json and the output of tryseed.py."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+): (\S+) (CAUGHT|\S+)(.*)", l)
    if m:
        res[m[1]] = (m[2], m[3], re.sub(r".*violated: ", "", m[4]) if "violated: " in m[4] else "")
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % d
    if not os.path.exists(p):
        continue
    j = json.load(open(p))
    r = res.get(d)
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"].replace("|", "/"), "?" if r is None else ("missed" if r[1] != "CAUGHT" else "%s%s" % (r[0], ": " + r[2].strip()[:60] if r[2] else ""))))
print("\n".join(rows))
