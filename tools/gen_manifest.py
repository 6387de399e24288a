#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl and the properties the harness registers."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "manifest_notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
have = set()
for f in glob.glob(os.path.join(V, "harness/props/*.go")):
    have.update(re.findall(r'ID:\s*"(C\d+)"', open(f).read()))
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": NOTES[i], "level": "exploration",
            "level_note": "randomised generated-input search with a fixed seed; no claim beyond the cases explored"})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
