#!/usr/bin/env python3
"""run.py <property> [--replay FILE] [--seed N] [--scale X] [--jobs N]
Runs the check of one property against /repo's working tree.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not give an answer."""
import argparse, concurrent.futures, glob, itertools, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build
from vp.checks import CHECKS

SERIAL = itertools.count()
HERE = os.path.dirname(os.path.abspath(__file__))


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key.removeprefix("key=")] = what
    except OSError:
        pass
    return out


VALGRIND = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99",
            "--num-callers=20", "--child-silent-after-fork=no"]


def memcheck_report(logs):
    """What valgrind wrote about the process that ended on an error."""
    for f in sorted(glob.glob(logs + ".*"), key=os.path.getmtime, reverse=True):
        t = open(f, errors="replace").read()
        if t.strip():
            return t[:5000]
    return ""


def run_shard(exe, args, known, shard, tmo, memcheck):
    outdir = os.path.join(build.BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    env = {k: v for k, v in os.environ.items()
           if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS")}
    env["VP_REPO"] = build.REPO
    out = os.path.join(outdir, "%d.%d.json" % (os.getpid(), next(SERIAL)))
    cmd = [exe, "--shard", "%d/%d" % shard, "--out", out, "--known", ",".join(known)] + args
    if memcheck:
        cmd = VALGRIND + ["--log-file=" + out + ".vg.%p"] + cmd
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        o, _ = p.communicate(timeout=tmo)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"harness_error": "shard timed out"}
    try:
        res = json.load(open(out))
    except Exception as e:
        res = {"harness_error": "no result (%s): exit %s %s" % (
            e, p.returncode, (o or b"")[-2000:].decode(errors="replace"))}
    if memcheck:
        for v in res.get("violations", []):
            v["msg"] += memcheck_report(out + ".vg")
    for f in glob.glob(out + "*"):
        os.unlink(f)
    return res


def shard_with_retry(*task):
    r = run_shard(*task)
    if r.get("harness_error") and not r.get("violations"):
        r2 = run_shard(*task)  # once more, then give up
        if not r2.get("harness_error"):
            return r2
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--scenario")
    a = ap.parse_args()
    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    chk = CHECKS[pid]
    t0 = time.time()
    known = known_findings(pid)
    total = {"evaluations": 0, "distinct": set(), "events": {}, "samples": [], "per": {}}
    viols, errors, unbuilt, knownhit = [], [], [], set()

    rec = None
    if a.replay:
        rec = json.load(open(a.replay))
    if not rec:
        build.prepare([(u["name"], u.get("cfg", "def"), u.get("san", "asan"), u["src"])
                       for u in chk["units"] if thorough or not u.get("thorough_only")])
    work = []
    for unit in chk["units"]:
        name, cfg, san = unit["name"], unit.get("cfg", "def"), unit.get("san", "asan")
        if rec and (rec["unit"], rec["cfg"], rec["san"]) != (name, cfg, san):
            continue
        if unit.get("thorough_only") and not thorough:
            continue
        try:
            exe = build.link(name, cfg, san, unit["src"], unit.get("link", ()))
        except build.BuildError as e:
            unbuilt.append("%s-%s-%s: %s" % (name, cfg, san, e))
            continue
        args = ["--seed", str(a.seed), "--hang", str(unit.get("hang", 60))]
        if thorough:
            args.append("--thorough")
        sc = unit.get("scale", 1.0) * a.scale
        args += ["--scale", str(sc)]
        if unit.get("scenario") or a.scenario:
            args += ["--scenario", a.scenario or unit["scenario"]]
        if unit.get("fatal"):
            args.append("--fatal-only")
        if rec:
            args = ["--seed", str(rec["seed"]), "--scenario", rec["scenario"],
                    "--from", str(rec["from"]), "--to", str(rec["index"] + 1), "--verbose"]
            if rec["tier"] == "thorough":
                args.append("--thorough")
            # indices of a batch are spaced by the number of shards
            if unit.get("fatal"):
                args.append("--fatal-only")
            if rec["from"] != rec["index"]:
                args[args.index("--from") + 1] = str(rec["from"])
            r = subprocess.run((VALGRIND if unit.get("memcheck") else []) + [exe] + args)
            sys.exit(1 if r.returncode == 40 else 0 if r.returncode == 0 else 2)
        # units that bring threads of their own run by themselves
        wide = unit.get("max_shards", 0)
        nsh = wide or unit.get("shards", a.jobs)
        work.append((unit, bool(wide), [
            (exe, args, known, (i, nsh), 3000 if thorough else 600, unit.get("memcheck", False))
            for i in range(nsh)]))
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool:
        done = [[pool.submit(shard_with_retry, *t) for t in tasks] if not alone else None
                for _, alone, tasks in work]
        done = [[f.result() for f in d] if d else None for d in done]
        for n, (_, alone, tasks) in enumerate(work):
            if alone:
                done[n] = list(pool.map(lambda t: shard_with_retry(*t), tasks))
    for (unit, _, _), res in zip(work, done):
        name, cfg, san = unit["name"], unit.get("cfg", "def"), unit.get("san", "asan")
        label = "%s/%s/%s" % (name, cfg, san)
        for r in res:
            if r.get("harness_error"):
                errors.append(label + ": " + r["harness_error"])
            for v in r.get("violations", []):
                v.update(unit=name, cfg=cfg, san=san)
                viols.append(v)
            knownhit.update(r.get("known", []))
            for s, d in r.get("scenarios", {}).items():
                total["evaluations"] += d["evals"]
                k = label + ":" + s
                p = total["per"].setdefault(k, {"evaluations": 0, "distinct": set(), "secs": 0})
                p["evaluations"] += d["evals"]
                p["secs"] = max(p["secs"], round(d["secs"], 2))
                p["distinct"].update(d["distinct"])
                total["distinct"].update(s + cfg + h for h in d["distinct"])
                for c, n in d["counts"].items():
                    total["events"][c] = total["events"].get(c, 0) + n
                for smp in d["samples"][:1]:
                    if sum(1 for x in total["samples"] if x["scenario"] == s) < 1:
                        total["samples"].append({"scenario": s, "case": smp[:3000]})
    confirmed = [v for v in viols if v["confirmed"]]
    unconfirmed = [v for v in viols if not v["confirmed"]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["distinct"]),
            "rule": chk["rule"],
            "samples": total["samples"][:8],
            "events_observed": dict(sorted(total["events"].items())),
            "scenarios": {k: {"evaluations": v["evaluations"], "distinct_nontrivial": len(v["distinct"]),
                              "slowest_shard_s": v["secs"]} for k, v in total["per"].items()},
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if unbuilt:
        ev["coverage"]["units_not_built"] = [e[:300] for e in unbuilt]
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, known.get(k, "")))
    if confirmed:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in confirmed:
            ident = (v["unit"], v["scenario"], v["key"])
            if ident in seen:
                continue
            seen.add(ident)
            path = os.path.join(rd, "%s-%s-%s-%d.json" % (pid, v["scenario"], v["cfg"], v["index"]))
            with open(path, "w") as f:
                json.dump({"property": pid, "unit": v["unit"], "cfg": v["cfg"], "san": v["san"],
                           "scenario": v["scenario"], "seed": a.seed, "index": v["index"],
                           "from": v["from"], "tier": ev["tier"], "key": v["key"],
                           "kind": v["kind"], "what": v["msg"], "case": v["log"],
                           "how": "python3 run.py %s --replay <this file>" % pid}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
            print("  [%s] %s case %d: %s" % (v["key"], v["scenario"], v["index"], v["msg"][:1500]))
        sys.exit(1)
    # a harness that no longer fits the program's internals says nothing about
    # the property; the others decide it, and without any there is no answer
    for e in unbuilt:
        print("NOT BUILT:", e[:3000])
    for e in errors:
        print("ERROR of the check:", e[:3000])
    for v in unconfirmed:
        print("INCONCLUSIVE (did not repeat): %s #%d [%s] %s" % (
            v["scenario"], v["index"], v["key"], v["msg"][:1500]))
    if errors or unconfirmed or total["evaluations"] == 0:
        sys.exit(2)
    print("%s held on %d executions (%d distinct non-trivial), %.1f s" % (
        pid, total["evaluations"], len(total["distinct"]), time.time() - t0))


main()
