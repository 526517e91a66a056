#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted bug | Property | What it breaks | Caught by |", "|---|---|---|---|"]
extra = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "\\|"), extra.get(n, m["property"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end of table -->")
else:
    s = re.sub(r"<!-- table -->.*<!-- end of table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end of table -->", s, flags=re.S)
open(p, "w").write(s)
