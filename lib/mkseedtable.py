#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the SEEDS markers) from seeded/*/meta.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"]))
p = os.path.join(V, "DESIGN.md"); s = open(p).read(); t = "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->"
s = re.sub(r"<!-- SEEDS -->.*?<!-- /SEEDS -->", lambda _: t, s, flags=re.S) if "<!-- SEEDS -->" in s else s.replace("SEEDTABLE", t)
open(p, "w").write(s); print(len(rows) - 2, "rows")
