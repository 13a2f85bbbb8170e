#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property whose check reports it | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
new = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("PLANT_TABLE", new) if "PLANT_TABLE" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda m: new, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
