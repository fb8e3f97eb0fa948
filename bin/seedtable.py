#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| change | caught by | needs |", "|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s |" % (n, m.get("caught_by", m["property"]), m["needs"].replace("|", "/")))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
