#!/usr/bin/env python3
"""newbug.py ID PROP FILE <<'X' : make seeded/ID from stdin sections
OLD / NEW blocks (repeatable, each optionally preceded by FILE name), NEEDS, BREAKS, MAIN.
Sections start with a line '@@ <name> [arg]'."""
import sys, os, json, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop = sys.argv[1], sys.argv[2]
secs = []
for line in sys.stdin.read().split("\n"):
    if line.startswith("@@ "):
        secs.append([line[3:].split(), []])
    elif secs:
        secs[-1][1].append(line)
d = os.path.join(V, "seeded", bid)
os.makedirs(d, exist_ok=True)
edits, meta, f = {}, {"property": prop}, None
old = None
for (h, body) in secs:
    txt = "\n".join(body).rstrip("\n")
    if h[0] == "OLD": f = h[1] if len(h) > 1 else f; old = txt
    elif h[0] == "NEW":
        s = edits.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        edits[f] = s.replace(old, txt)
    elif h[0] == "NEEDS": meta["needs"] = " ".join(txt.split())
    elif h[0] == "BREAKS": meta["what_it_breaks"] = " ".join(txt.split())
    elif h[0] == "MAIN": open(os.path.join(d, "main.go.txt"), "w").write(txt + "\n")
diff = ""
import tempfile
for f, s in edits.items():
    with tempfile.NamedTemporaryFile("w", suffix=".go", delete=False) as t: t.write(s)
    o = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, t.name], capture_output=True, text=True).stdout
    os.unlink(t.name)
    diff += o
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
printf 'module demo\\n\\ngo 1.21.5\\n\\nrequire github.com/jakecoffman/cp/v2 v2.0.0\\n\\nreplace github.com/jakecoffman/cp/v2 => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o demo . || exit 3
./demo
''')
