#!/usr/bin/env python3
"""Try planted bugs: seedtest.py [-n] [-c CHECKS] ID...   (applies each to /repo and undoes it)
-n: skip the repository's own tests. -c C01,C02 or -c all: run these checks rather than the bug's own."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "-n" in args
if notest: args.remove("-n")
checks = None
if "-c" in args:
    i = args.index("-c"); checks = args[i + 1].split(","); del args[i:i + 2]
base = json.load(open("/opt/vp/BASELINE.json"))
def stable(): 
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(base.get(k), list): return set(base[k])
    raise SystemExit("baseline keys: %s" % list(base))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
for id in args or sorted(os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    out = [id, meta["property"]]
    r = sh("cd /repo && bash %s/demo.sh" % d)
    out.append("clean-demo=%d" % r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(id, "DOES NOT APPLY", r.stderr); continue
        r = sh("bash /opt/vp/build.sh")
        out.append("build=%d" % r.returncode)
        if r.returncode: print(r.stderr[-1500:])
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            res = json.load(open("/tmp/seed-out.json"))
            passed = set(res.get("passed") or res.get("pass") or [])
            miss = stable() - passed
            out.append("tests=%s" % ("ok" if not miss else "FAIL:%s" % sorted(miss)[:2]))
        r = sh("cd /repo && bash %s/demo.sh" % d)
        out.append("bug-demo=%d" % r.returncode)
        allc = ["C%02d" % i for i in range(1, 40) if os.path.exists(V) and ("C%02d" % i) in open(V + "/properties.jsonl").read()]
        for c in (allc if checks == ["all"] else checks or [meta["property"]]):
            t = time.time()
            r = sh("cd %s && VERIF_SEED=%s python3 check.py %s" % (V, os.environ.get("VERIF_SEED", "1"), c))
            v = "VIOLATION property=%s " % c in r.stdout
            out.append("%s=%s(%d s)" % (c, "CAUGHT" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "rc%d" % r.returncode, time.time() - t))
            if r.returncode == 2: print(r.stdout[-1500:], r.stderr[-500:])
            if "-v" in os.environ.get("SEEDTEST", ""): print(r.stdout[:4000])
    finally:
        sh("git -C /repo checkout -- .")
    print(" ".join(out), flush=True)
