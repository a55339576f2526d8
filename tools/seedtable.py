#!/usr/bin/env python3
"""Renews the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                                         m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
text = open(p).read()
text = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->",
              lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", text)
open(p, "w").write(text)
