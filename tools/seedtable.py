"""Table of the planted bugs for DESIGN.md (reads seeded/*/meta.json)."""
import glob
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks | caught by |",
        "|---|---|---|---|---|"]
caught = {}
f = os.path.join(here, "tools", "caught.json")
if os.path.exists(f):
    caught = json.load(open(f))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    rows.append("| %s | %s | %s | %s | %s |" % (
        b, m["property"], m["needs"], m["what_it_breaks"],
        caught.get(b, m["property"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE", new)
else:
    s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: new, s,
               flags=re.S)
open(p, "w").write(s)
