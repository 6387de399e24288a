#!/usr/bin/env python3
"""Run the generated-input check of one property against /repo's working tree.

  run.py C01 [--tier quick|thorough] [--seed N]     the check
  run.py --replay replays/C01-....json              run one saved case
  run.py --setup                                    build once, to warm the Go build cache

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Anything else is an error of the check itself.
"""
import argparse, json, os, shutil, struct, subprocess, sys, tempfile, time, resource

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPVERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
WORKERS = 8
DEBUG_WORKERS = 2  # of WORKERS, run against the library built with its assertions on


def goenv():
    e = dict(os.environ)
    godir = "/opt/veriftools/go1.27.3/bin"
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
             CGO_ENABLED="0", GOPATH="/root/go", GOCACHE="/root/.cache/go-build")
    if os.path.isdir(godir):
        e["PATH"] = godir + ":" + e.get("PATH", "")
    return e


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def build(tmp, which=("release", "debug")):
    src = os.path.join(HERE, "harness")
    mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    modfile = os.path.join(tmp, "go.mod")
    open(modfile, "w").write(mod)
    open(os.path.join(tmp, "go.sum"), "w").close()
    procs = []
    for kind in which:
        out = os.path.join(tmp, "cpverif-" + kind)
        cmd = ["go", "build", "-modfile", modfile, "-o", out]
        if kind == "debug":
            cmd += ["-tags", "debug"]
        cmd += ["."]
        procs.append((kind, subprocess.Popen(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, text=True)))
    bins = {}
    for kind, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            die("build failed (%s):\n%s" % (kind, o))
        bins[kind] = os.path.join(tmp, "cpverif-" + kind)
    return bins


def cpu_limit(sec):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (sec, sec + 5))
    return f


def worker_cmd(bins, prop, seed, w, cases, kind, tmp, extra=()):
    cmd = [bins[kind], "-prop", prop, "-seed", str(seed), "-worker", str(w), "-cases", str(cases),
           "-known", KNOWN, "-progress", os.path.join(tmp, "progress-%d" % w),
           "-hashes", os.path.join(tmp, "hashes-%d" % w)]
    if kind == "debug":
        cmd.append("-debugbuild")
    return cmd + list(extra)


def save_replay(prop, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, int(time.time() * 1000) % 10**10))
    json.dump(rec, open(path, "w"), indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--labels", action="store_true")
    ap.add_argument("--noevidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="cpverif-")
    try:
        rc = go(a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def go(a, tmp, t0):
    if a.setup:
        build(tmp)
        print("built")
        return 0
    if a.replay:
        rec = json.load(open(a.replay))
        kind = "debug" if rec.get("Debug") else "release"
        bins = build(tmp, (kind,))
        cmd = [bins[kind], "-replay", a.replay, "-known", KNOWN]
        if kind == "debug":
            cmd.append("-debugbuild")
        if a.only:
            cmd += ["-only", a.only]
        return subprocess.run(cmd).returncode
    prop, seed = a.prop, a.seed % (1 << 63)
    bins = build(tmp)
    info = json.loads(subprocess.run([bins["release"], "-info"], capture_output=True, text=True).stdout)
    if prop not in info:
        die("no such property: %s" % prop)
    meta = info[prop]
    total = a.cases or (meta["Thorough"] if a.tier == "thorough" else meta["Quick"])
    per = max(1, total // WORKERS)
    procs = []
    for w in range(WORKERS):
        kind = "debug" if w >= WORKERS - DEBUG_WORKERS else "release"
        extra = []
        if w in (0, WORKERS - 1):
            extra.append("-pins")
        if a.only:
            extra += ["-only", a.only]
        so = open(os.path.join(tmp, "out-%d" % w), "w")
        se = open(os.path.join(tmp, "err-%d" % w), "w")
        p = subprocess.Popen(worker_cmd(bins, prop, seed, w, per, kind, tmp, extra), stdout=so, stderr=se)
        procs.append((w, kind, p))
    deadline = t0 + (820 if a.tier == "quick" else 6 * 3600)
    stats, fail, errors = [], None, []
    for w, kind, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for _, _, q in procs:
                q.kill()
            die("out of time")
        out = open(os.path.join(tmp, "out-%d" % w)).read()
        err = open(os.path.join(tmp, "err-%d" % w)).read()
        if p.returncode in (0, 1) and out.strip():
            try:
                s = json.loads(out.strip().splitlines()[-1])
            except ValueError:
                errors.append("worker %d: unreadable output" % w)
                continue
            stats.append(s)
            if s.get("Fail") and not fail:
                fail = s["Fail"]
        else:
            if fail:
                continue
            # a fatal error (stack overflow, deadlock) or a case that does not end: find the case and confirm it
            rec = confirm(bins, prop, seed, w, kind, tmp, p.returncode, err, a)
            if rec is None:
                errors.append("worker %d ended with %s: %s" % (w, p.returncode, err[-600:]))
            elif not fail:
                fail = rec

    ev = sum(s["Evaluations"] for s in stats)
    labels, found, samples, pins = {}, {}, [], []
    for s in stats:
        for k, v in (s["Labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        found.update(s["Found"] or {})
        samples += (s["Samples"] or [])
        for p in s["Pins"] or []:
            if p not in pins:
                pins.append(p)
    distinct = set()
    for w in range(WORKERS):
        f = os.path.join(tmp, "hashes-%d" % w)
        if os.path.exists(f):
            b = open(f, "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    known = []
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, found[k].replace("\n", " ")[:300]))
        known.append(k)
    if not a.noevidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump({
            "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(distinct), "rule": meta["Rule"],
                "samples": samples[:6] or ["(no non-trivial case was generated)"],
                "classes": dict(sorted(labels.items())),
                "fixed_scenarios": pins,
                "nontrivial_cases": sum(s["NonTrivial"] for s in stats),
                "distinct_counting": "by hash of the choice sequence, counted up to 300000 per worker",
                "discarded": sum(s["Discarded"] for s in stats),
                "workers": WORKERS, "workers_with_library_assertions_on": DEBUG_WORKERS,
                "known_findings_met": known,
            },
            "assumptions": ["a case that passes says nothing about cases not generated",
                            "comparisons use the tolerances stated in DESIGN.md"],
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if fail else 0,
        }, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if a.labels:
        for k, v in sorted(labels.items()):
            print("  %-50s %d" % (k, v))
    if fail:
        path = save_replay(prop, fail)
        print("%s: %s" % (fail["Kind"], fail["Message"][:3000]))
        if fail.get("Log"):
            print(fail["Log"][:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        die("; ".join(errors))
    print("%s: held on %d cases (%d distinct non-trivial, %d fixed scenarios) in %.1fs, seed %d" %
          (prop, ev, len(distinct), len(pins), time.time() - t0, seed))
    return 0


def confirm(bins, prop, seed, w, kind, tmp, rc, err, a):
    try:
        case = struct.unpack("<Q", open(os.path.join(tmp, "progress-%d" % w), "rb").read(8))[0]
    except Exception:
        return None
    extra = ["-limit", "60", "-noshrink"]
    if case == (1 << 64) - 1:
        extra += ["-pins"]
        n = 0
    else:
        extra += ["-case", str(case)]
        n = 1
    if a.only:
        extra += ["-only", a.only]
    p = subprocess.run(worker_cmd(bins, prop, seed, 100 + w, n, kind, tmp, extra), capture_output=True, text=True,
                       preexec_fn=cpu_limit(120))
    fatal = "fatal error:" in p.stderr or "goroutine stack exceeds" in p.stderr
    oom = p.returncode == -9
    if p.returncode in (97, 98) or (fatal and "out of memory" not in p.stderr and not oom):
        what = "does-not-terminate" if p.returncode == 97 else ("unbounded-memory" if p.returncode == 98 else "fatal-error")
        return {"Property": prop, "Debug": kind == "debug", "CaseSeed": case, "Kind": what,
                "Message": "%s: %s" % (what, (p.stderr or err)[-1500:]), "Log": ""}
    if p.returncode == 1 and p.stdout.strip():
        # the case fails, and only a smaller version of it met while shrinking hung or crashed
        try:
            return json.loads(p.stdout.strip().splitlines()[-1]).get("Fail")
        except ValueError:
            pass
    return None


if __name__ == "__main__":
    main()
