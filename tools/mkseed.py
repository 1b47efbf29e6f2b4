#!/usr/bin/env python3
"""mkseed.py SPEC.py: a spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS =
[(file, old, new)], SRCS (repo sources of the demo), DEMO (C++ text; exit
status nonzero when the property is broken), optional STUBS (copy the library
stand-ins) and DEFS.  Writes seeded/ID/."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/seedspecs")
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["ID"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    for f, old, new in s["EDITS"]:
        p = "/repo/" + f; t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    subprocess.run("git -C /repo checkout -- .", shell=True, capture_output=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(s["DEMO"])
    inc = "-I/repo/_build " + " ".join("-I/repo" + ("/" + x if x else "") for x in ["", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors", "sysfs"])
    extra = ""
    if s.get("STUBS"):
        shutil.copytree(V + "/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
        inc = '-I"$here"/stubs -I"$here"/stubs/simbus ' + inc
        extra = ' "$here"/stubs/simbus/simbus.cpp'
    for f, text in s.get("FILES", {}).items(): open(d + "/" + f, "w").write(text)
    flags = "-std=c++23 -O1 -w -pthread %s %s" % (inc, s.get("DEFS", ""))
    if len(s["SRCS"]) > 20:
        build = '''cc="g++ %s"
n=0
for f in "$here"/demo.cpp%s %s; do n=$((n+1)); echo "$f $work/$n.o"; done | xargs -P 6 -L 1 sh -c "$(echo "$cc" | sed "s#\\"##g") -c -o \\"\\$1\\" \\"\\$0\\"" || exit 1
g++ -pthread -o "$work/demo" "$work"/*.o %s || exit 1''' % (flags.replace('"', ""), extra, " ".join("/repo/" + x for x in s["SRCS"]), s.get("LIBS", ""))
    else:
        build = 'g++ %s -o "$work/demo" "$here/demo.cpp"%s %s %s || exit 1' % (flags, extra, " ".join("/repo/" + x for x in s["SRCS"]), s.get("LIBS", ""))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# Builds demo.cpp with the program's own sources and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
%s
cd "$work" && timeout 120 ./demo "$work"
''' % build)
    print("wrote", d)
