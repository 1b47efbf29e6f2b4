#!/usr/bin/env python3
"""seedtest.py [--no-check] ID...: confirms a planted change (applies, builds,
passes the stable tests, demo 0 without and nonzero with it) and runs its
property's quick check on it.  Works in /repo and undoes the change."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)
def demo(d):
    t = tempfile.mkdtemp(prefix="seeddemo.")
    shutil.copytree(d, t + "/d", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = sh(["bash", t + "/d/demo.sh"], cwd="/repo", timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        shutil.rmtree(t, ignore_errors=True)
def build(): return sh("bash /opt/vp/build.sh")
def tests():
    out = tempfile.mktemp(suffix=".json")
    sh("bash /opt/vp/test.sh %s" % out)
    p = set(json.load(open(out))["passed"]); os.unlink(out)
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - p
check = "--no-check" not in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
for i in ids:
    d = os.path.join(V, "seeded", i); patch = d + "/patch.diff"
    meta = json.load(open(d + "/meta.json")); res = []
    build()
    rc, out = demo(d)
    res.append("demo-clean=%s" % rc)
    if rc: print(out)
    a = sh(["git", "-C", "/repo", "apply", patch])
    if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
    try:
        b = build(); res.append("build=%s" % b.returncode)
        if b.returncode: print(b.stdout[-1500:])
        miss = tests(); res.append("tests-lost=%d" % len(miss))
        if miss: print(miss)
        rc, out = demo(d); res.append("demo-bug=%s" % rc)
        if not rc: print(out)
        if check:
            for p in [meta["property"]] + meta.get("also", []):
                t = time.time()
                r = sh(["python3", "run.py", p], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("%s=%s%s (%.0fs)" % (p, r.returncode, " CAUGHT" if r.returncode == 1 and v else " MISSED", time.time() - t))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, *res, flush=True)
build()
