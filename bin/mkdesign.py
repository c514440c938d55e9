#!/usr/bin/env python3
"""fill the table of planted bugs into DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| property | planted bug | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (m["property"], f.split("/")[-2], m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->\n"
d = open(V + "/DESIGN.md").read()
d = d.replace("SEEDTABLE\n", t) if "SEEDTABLE\n" in d else re.sub(r"<!-- seeds -->.*<!-- /seeds -->\n", lambda m: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
