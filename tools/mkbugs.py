#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["property"], m["what_it_breaks"].replace("|", "/").split("\n")[0][:160]))
p = here + "/DESIGN.md"
s = open(p).read()
table = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
s = s.replace("@@BUGS@@", table) if "@@BUGS@@" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: table, s, flags=re.S)
open(p, "w").write(s)
