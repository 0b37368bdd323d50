#!/usr/bin/env python3
"""Fill DESIGN.md's table of planted bugs (between the two markers) from seeded/*/meta.json."""
import json, glob, os
b = "/verif"
rows = ["<!-- seeded -->", "| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(b + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d.get('caught_by', d['property'])} | {d['needs']} |")
rows.append("<!-- /seeded -->")
t = open(b + "/DESIGN.md").read()
a, z = t.index("<!-- seeded -->"), t.index("<!-- /seeded -->") + len("<!-- /seeded -->")
open(b + "/DESIGN.md", "w").write(t[:a] + "\n".join(rows) + t[z:])
