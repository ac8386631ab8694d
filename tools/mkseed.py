#!/usr/bin/env python3
"""Developer tool: mkseed.py DEF.py... makes and confirms seeded bugs in a scratch copy of /repo.
DEF.py defines seed(id, property, [(file, old, new), ...], demo_cpp, needs, what)."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"
DEMO = """#!/bin/bash
# exit 0: behaviour as specified; cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I src "$d/demo.cpp" src/*.cpp -o "$t/demo" || exit 2
timeout 60 "$t/demo"
"""
only = set(os.environ.get("ONLY", "").split()) or None


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def seed(sid, prop, edits, demo, needs, what):
    if only and sid not in only:
        return
    d = os.path.join(V, "seeded", sid)
    if os.path.exists(d) and not only:
        return
    shutil.rmtree(SCR, ignore_errors=True)
    sh("git clone -q /repo %s" % SCR)
    os.makedirs(SCR + "/d")
    open(SCR + "/d/demo.cpp", "w").write(demo)
    open(SCR + "/d/demo.sh", "w").write(DEMO)
    r = sh("bash d/demo.sh", SCR)
    if r.returncode:
        print("FAIL", sid, "demo fails on the unchanged tree", r.returncode, r.stdout[-500:], r.stderr[-1500:])
        return
    for f, old, new in edits:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("FAIL", sid, f, "matches", s.count(old), repr(old))
            return
        open(p, "w").write(s.replace(old, new))
    r = sh("bash d/demo.sh", SCR)
    if r.returncode == 0:
        print("FAIL", sid, "demo passes with the change")
        return
    if "error:" in r.stderr:
        print("FAIL", sid, "does not compile", r.stderr[-1500:])
        return
    b = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _b && timeout 60 _b/build/bin/qlibs_cpp_test", SCR)
    if b.returncode:
        print("FAIL", sid, "build/test", b.stdout[-800:], b.stderr[-500:])
        return
    diff = sh("git diff -- src", SCR).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(SCR + "/d/demo.cpp", d)
    shutil.copy(SCR + "/d/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print("ok", sid, "demo rc", r.returncode)


for a in sys.argv[1:]:
    exec(compile(open(a).read(), a, "exec"))
shutil.rmtree(SCR, ignore_errors=True)
