#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md (between the markers)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}`: {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
