#!/usr/bin/env python3
"""Print the table of planted bugs of DESIGN.md section 5."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = []
for f in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
    d = json.load(open(f))
    l.append((d["property"], os.path.basename(os.path.dirname(f)), d["needs"], d["what_it_breaks"]))
print("| caught by | planted bug | needs | what it breaks |\n|---|---|---|---|")
for p, i, n, w in sorted(l):
    print("| %s | `%s` | %s | %s |" % (p, i, n, w))
