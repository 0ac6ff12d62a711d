"""Writes the table of planted bugs into DESIGN.md (between the header of section 5 and section 6)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {d['property']}: {d['what_it_breaks'].replace('|', '/')} | {d['needs'].replace('|', '/')} |")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, b = s.split("|---|---|---|\n", 1)[0] + "|---|---|---|\n", "\n## 6." + s.split("\n## 6.", 1)[1]
open(f, "w").write(a + "\n".join(rows) + "\n" + b)
