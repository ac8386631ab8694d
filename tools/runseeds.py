#!/usr/bin/env python3
"""Developer tool: applies each seeded bug to a clone of /repo, runs its property's quick check; prints caught/missed."""
import json
import os
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor


def one(s):
    d = V + "/seeded/" + s
    m = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = w + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            return "%s DOES NOT APPLY %s" % (s, p.stderr[:200])
        t = time.time()
        p = subprocess.run([sys.executable, V + "/run_check.py", m["property"], "quick"], capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_REPO=r))
        ok = p.returncode == 1 and "VIOLATION property=" + m["property"] in p.stdout
        return "%s %s %s %.0fs %s" % (s, m["property"], "caught" if ok else "MISSED rc=%d" % p.returncode, time.time() - t, "" if ok else p.stdout[-300:])
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
