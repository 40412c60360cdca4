#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs |", "|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    rows.append("| %s | %s |" % (d, needs.replace("|", "\\|").replace("\n", " ")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
