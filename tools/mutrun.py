#!/usr/bin/env python3
"""Mutation sampling: how many small changes to the library that pass its tests do the checks notice?

  mutrun.py MUTS.jsonl OUT.jsonl [--n 200] [--seed 1] [--files a.go,b.go] [--scale 0.125]
"""
import argparse, json, os, random, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run as R
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
    "arbiter.go": "C14 C03 C02 C29 C13 C15", "bb.go": "C23 C31 C06", "bbtree.go": "C01 C31 C06 C26", "body.go": "C21 C12 C08 C09 C29 C20",
    "circle.go": "C05 C20 C28 C04", "collision.go": "C04 C14 C29 C06", "constraint.go": "C18 C09 C07", "contactbuffer.go": "C26 C29",
    "dampedrotaryspring.go": "C19 C18", "dampedspring.go": "C19 C18", "draw.go": "C30", "everything.go": "C20 C23 C14", "gearjoint.go": "C17 C18",
    "groovejoint.go": "C16 C18", "hashset.go": "C31 C01", "hashset_arbiter.go": "C02 C03 C29", "march.go": "C24", "pinjoint.go": "C16 C18",
    "pivotjoint.go": "C16 C18", "poly.go": "C05 C22 C20 C04 C28", "polyline.go": "C25", "ratchetjoint.go": "C17 C18", "rotarylimitjoint.go": "C17 C18",
    "segment.go": "C05 C20 C28 C04", "shape.go": "C05 C28 C07 C20 C09", "simplemotor.go": "C17 C18", "slidejoint.go": "C16 C18",
    "space.go": "C08 C09 C10 C11 C02 C03 C06 C12 C26 C14", "spacehash.go": "C31 C01 C06", "spatialindex.go": "C01 C31", "transform.go": "C23", "vector.go": "C23 C22 C24",
}


LAST = os.environ.get("MUT_LAST", "").split()


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def one(m, scale, info):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        env = R.goenv()
        src = open(os.path.join("/repo", m["File"]), "rb").read()
        new = src[:m["Off"]] + m["New"].encode() + src[m["End"]:]
        mf = os.path.join(tmp, "m.go")
        open(mf, "wb").write(new)
        ov = os.path.join(tmp, "ov.json")
        json.dump({"Replace": {os.path.join("/repo", m["File"]): mf}}, open(ov, "w"))
        p = sh(["go", "vet", "-overlay", ov, "-unsafeptr=false", "."], cwd="/repo", env=env) if False else None
        try:
            p = sh(["go", "test", "-vet=off", "-overlay", ov, "-timeout", "20s", "."], cwd="/repo", env=env, timeout=90)
        except subprocess.TimeoutExpired:
            return dict(m, result="tests")
        if p.returncode != 0:
            return dict(m, result="build" if "build failed" in p.stdout + p.stderr or "setup failed" in p.stdout else "tests")
        modf = os.path.join(tmp, "go.mod")
        open(modf, "w").write(open(os.path.join(V, "harness/go.mod")).read())
        open(os.path.join(tmp, "go.sum"), "w").close()
        binf = os.path.join(tmp, "bin")
        p = sh(["go", "build", "-overlay", ov, "-modfile", modf, "-o", binf, "."], cwd=os.path.join(V, "harness"), env=env)
        if p.returncode != 0:
            return dict(m, result="harness-build", msg=p.stdout[-300:] + p.stderr[-300:])
        order = FIRST.get(m["File"], "").split()
        order += [q for q in (LAST or sorted(info)) if q not in order]
        for prop in order:
            n = max(1, int(info[prop]["Quick"] * scale))
            cmd = [binf, "-prop", prop, "-seed", "5", "-worker", "0", "-cases", str(n), "-known", R.KNOWN, "-noshrink", "-pins",
                   "-progress", os.path.join(tmp, "pr"), "-hashes", os.path.join(tmp, "ha")]
            try:
                q = sh(cmd, timeout=300)
            except subprocess.TimeoutExpired:
                return dict(m, result="caught", by=prop, kind="timeout")
            if q.returncode not in (0, 1):
                return dict(m, result="caught", by=prop, kind="crash %d" % q.returncode)
            s = json.loads(q.stdout.strip().splitlines()[-1])
            if s.get("Fail"):
                return dict(m, result="caught", by=prop, kind=s["Fail"]["Kind"])
        return dict(m, result="SURVIVED")
    except Exception as e:
        return dict(m, result="error", msg=repr(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("muts")
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--scale", type=float, default=0.125)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--stop", type=float, default=1e9, help="seconds")
    a = ap.parse_args()
    ms = [json.loads(l) for l in open(a.muts)]
    if a.files:
        fs = a.files.split(",")
        ms = [m for m in ms if m["File"] in fs]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["File"], d["Off"], d["End"], d["New"]))
    random.Random(a.seed).shuffle(ms)
    ms = [m for m in ms if (m["File"], m["Off"], m["End"], m["New"]) not in done][:a.n]
    tmp = tempfile.mkdtemp()
    b = R.build(tmp, ("release",))["release"]
    info = json.loads(sh([b, "-info"]).stdout)
    shutil.rmtree(tmp)
    t0 = time.time()
    cnt = {}
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        def go(m):
            if time.time() - t0 > a.stop:
                return None
            return one(m, a.scale, info)
        for r in ex.map(go, ms):
            if r is None:
                continue
            cnt[r["result"]] = cnt.get(r["result"], 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(cnt, "%.0f s" % (time.time() - t0))


main()
