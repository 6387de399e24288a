#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/first_missed.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(V, "tools/first_missed.json")))
rows = []
for f in glob.glob(os.path.join(V, "seeded/*/meta.json")):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((d["property"], i, d["needs"].strip(), missed.get(i, "")))
rows.sort()
out = ["| planted bug | caught by | needs | first missed; what was added |", "|---|---|---|---|"]
for p, i, n, m in rows:
    out.append("| %s | %s | %s | %s |" % (i, p if m != "MISSED" else "(none)", n.replace("|", "/"), m if m != "MISSED" else "still missed"))
s = open(os.path.join(V, "DESIGN.md")).read()
a = s.index("<!-- matrix -->") + len("<!-- matrix -->\n")
b = s.index("<!-- /matrix -->")
open(os.path.join(V, "DESIGN.md"), "w").write(s[:a] + "\n".join(out) + "\n" + s[b:])
print(len(rows), "planted bugs")
