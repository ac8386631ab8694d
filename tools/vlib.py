"""Orchestration shared by all checks: builds the drivers from /repo's working tree, runs the
scripts, lets TLC judge the recorded traces, and writes the evidence.  No verdict is taken here:
the oracle is always the TLA+ specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


def f32(x):
    """the binary32 nearest to x, as a Python float"""
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def bits32(u):
    return struct.unpack("<f", struct.pack("<I", u & 0xFFFFFFFF))[0]


def hx(x):
    """script notation of a float32 value (exact)"""
    x = f32(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return x.hex()


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_validated": 0, "model_checking_runs": [], "trace_runs": []}
        self.violations = []
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def java_classes(self):
        if getattr(self, "_cls", None):
            return self._cls
        out = os.path.join(self.work, "cls")
        os.makedirs(out, exist_ok=True)
        src = [os.path.join(SPEC, f) for f in os.listdir(SPEC) if f.endswith(".java")]
        r = subprocess.run(["javac", "-cp", TLAJARS, "-d", out] + src, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac: " + r.stderr)
        self._cls = out
        return out

    def build(self, name, sources=None, flags=(), asan=True, opt="-O1", std="c++11", defs=(), ddefs=()):
        """driver `name` (drivers/name.cpp, with ddefs defined) + library sources of /repo -> executable"""
        tag = lambda *ls: hashlib.md5(" ".join(sum((list(l) for l in ls), [])).encode()).hexdigest()[:6]
        exe = os.path.join(self.work, "drv_" + name + ("_" + tag(flags, defs, ddefs) if flags or defs or ddefs else ""))
        if os.path.exists(exe):
            return exe
        if sources is None:
            sources = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
        objs = []
        base = ["g++", "-std=" + std, opt, "-g1", "-w", "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "drivers")]
        if asan:
            base += ["-fsanitize=address,bounds,null,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        base += list(flags) + ["-D" + d for d in defs] + os.environ.get("VERIF_CXXFLAGS", "").split()
        odir = os.path.join(self.work, "o_" + tag(base))
        os.makedirs(odir, exist_ok=True)
        jobs = []
        for s in [os.path.join(VERIF, "drivers", name + ".cpp")] + [os.path.join(REPO, "src", x) for x in sources]:
            drv = s.startswith(VERIF)
            o = os.path.join(odir, ("drv_" + tag(ddefs) if drv else "lib_") + os.path.basename(s) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(base + (["-D" + d for d in ddefs] if drv else []) + ["-c", s, "-o", o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs):
                if r.returncode:
                    raise CheckError("build of %s failed:\n%s" % (name, r.stderr[-4000:]))
        r = subprocess.run(base + objs + ["-o", exe], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link of %s failed:\n%s" % (name, r.stderr[-4000:]))
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers="1", heap="3g", timeout=850, extra=()):
        md = tempfile.mkdtemp(prefix="md-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + md,
               "-cp", TLAJARS + ":" + self.java_classes(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md,
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=md, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg=None, workers=None, expect_min=2, coverage_actions=True, extra=(), heap="6g", timeout=850):
        """TLC explores the specification itself; any violation here is an error of the model."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers or NPROC, heap=heap, extra=tuple(extra), timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model check of %s/%s failed:\n%s" % (module, cfg, tail(out)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        gen, dist = int(m[-1][0]), int(m[-1][1])
        if dist < expect_min:
            raise CheckError("model %s/%s explored only %d states" % (module, cfg, dist))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["model_checking_runs"].append({"model": module, "cfg": cfg, "distinct": dist, "generated": gen, "wall_s": round(time.time() - t, 1)})
        return out

    def generate(self, module, cfg=None, workers=1, extra=(), heap="4g"):
        """behaviours of the specification, one per HIST line, to be replayed in the implementation"""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, heap=heap, extra=tuple(extra))
        if rc != 0 or "No error has been found" not in out and "-simulate" not in extra:
            raise CheckError("generation from %s/%s failed:\n%s" % (module, cfg, tail(out)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["states"] += int(m[-1][1])
            self.cov["transitions"] += int(m[-1][0])
            self.cov["model_checking_runs"].append({"model": module, "cfg": cfg, "distinct": int(m[-1][1]), "generated": int(m[-1][0]), "wall_s": round(time.time() - t, 1)})
        hist = []
        for ln in out.splitlines():
            if ln.startswith('"HIST '):
                hist.append(json.loads(json.loads(ln)[5:]))
        return hist

    # ------------------------------------------------- implementation traces
    def _run_driver(self, exe, script, timeout):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98"
        try:
            r = subprocess.run([exe], input=script, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as ex:
            o = ex.stdout or b""
            return -9, o.decode(errors="replace") if isinstance(o, bytes) else o, "timeout after %ss" % timeout

    def _judge(self, exe, module, cfg, blocks, timeout, tag, scheds=None):
        """-> (status, info): status in accepted / rejected / crash"""
        script = "\n".join("\n".join(b) for b in blocks) + "\n"
        if scheds:
            script = "\n".join(interleave(blocks, scheds)) + "\n"
        rc, out, err = self._run_driver(exe, script, timeout)
        if scheds:        # the projection of the trace on every slot
            by = {}
            for l in out.split("\n"):
                if l[1:2] == "|":
                    by.setdefault(l[0], []).append(l[2:])
            out = "\n".join("\n".join(by[k]) for k in sorted(by))
            blocks = [b for k, b in sorted(slots_of(blocks, scheds), key=lambda kb: kb[0])]
        if rc == 3:
            raise CheckError("driver %s: bad script: %s" % (exe, err[-500:]))
        lines = out.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if rc != 0:
            # index of the block in which it stopped
            nb = sum(1 for l in lines if l.startswith('{"op":"new"'))
            return "crash", {"block": max(0, nb - 1), "script": blocks[min(max(0, nb - 1), len(blocks) - 1)], "rc": rc, "stderr": err[-3000:], "events": len(lines), "last": lines[-3:]}
        path = os.path.join(self.work, "trace-%s.ndjson" % tag)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        if not lines:
            raise CheckError("driver produced no events")
        rc, tout = self.tlc(module, cfg, env={"TRACE": path}, workers="1", heap="2g")
        os.unlink(path)
        if "No error has been found" in tout and rc == 0 and "ACCEPTED" in tout:
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", tout)
            return "accepted", {"events": len(lines), "distinct": int(m[-1][1]), "generated": int(m[-1][0]), "sample": lines[:6]}
        m = re.search(r'"REJECTED-AT", (\d+)', tout)
        if m:
            k = int(m.group(1)) - 1
        elif "java.lang.OutOfMemoryError" in tout or "Parsing or semantic analysis failed" in tout or "Could not find" in tout or "java.io" in tout:
            raise CheckError("TLC failed on trace of %s:\n%s" % (module, tail(tout)))
        else:
            # evaluation error: the observation is outside the vocabulary of the specification
            m = re.findall(r"(?m)^/\\ i = (\d+)|^i = (\d+)", tout)
            k = max([int(a or b) for a, b in m] or [1]) - 1
        kk = min(k, len(lines) - 1)
        nb = sum(1 for l in lines[:kk + 1] if l.startswith('{"op":"new"'))
        return "rejected", {"block": max(0, nb - 1), "event": kk, "line": lines[kk], "script": blocks[min(max(0, nb - 1), len(blocks) - 1)], "tlc": tail(tout, 25), "context": lines[max(0, kk - 3):kk + 1]}

    def validate(self, exe, module, blocks, cfg=None, shards=None, timeout=120, label=None, minshard=1, scheds=None):
        """Runs every block (a list of script lines, the first one `new ...`) in the real code and lets
        TLC decide whether each recorded event is a step of the specification `module`.  With scheds (sequences of slots)
        the blocks of a shard are executed in several objects at once, their lines interleaved in that order."""
        if self.violations:
            return
        cfg = cfg or module + ".cfg"
        t = time.time()
        n = shards or NPROC
        n = max(1, min(n, (len(blocks) + minshard - 1) // minshard))
        # contiguous shards balanced by number of lines
        parts = [[] for _ in range(n)]
        load = [0] * n
        for b in blocks:
            k = load.index(min(load))
            parts[k].append(b)
            load[k] += len(b)
        parts = [p for p in parts if p]
        total = {"events": 0}
        bad = None
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(self._judge, exe, module, cfg, p, timeout, "%s-%d" % (module, i), scheds) for i, p in enumerate(parts)]
            for p, fu in zip(parts, futs):
                st, info = fu.result()
                if st == "accepted":
                    total["events"] += info["events"]
                    self.cov["states"] += info["distinct"]
                    self.cov["transitions"] += info["generated"]
                    self.cov["traces_validated_against_impl"] += len(p)
                    if len(self.cov["samples"]) < 12:
                        self.cov["samples"].append({"model": module, "trace": info["sample"]})
                elif bad is None:
                    bad = (st, info, p)
        self.cov["events_validated"] += total["events"]
        self.cov["trace_runs"].append({"spec": module, "label": label or module, "histories": len(blocks), "events": total["events"], "wall_s": round(time.time() - t, 1)})
        if bad and scheds:       # a history that is rejected on its own as well says nothing about the company it was in
            alone = lambda kb: self._judge(exe, module, cfg, [kb[1]], timeout, "%s-alone-%d" % (module, kb[0]), [[0]])[0] == "accepted"
            if bad[0] == "crash" or not alone((0, bad[1]["script"])):
                some = (bad[2] + blocks)[:64]
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    sound = [b for b, ok in zip(some, ex.map(alone, enumerate(some))) if ok]
                self.cov["trace_runs"][-1]["rejected_alone"] = len(some) - len(sound)
                if not sound:
                    return
                if len(sound) < len(some):
                    return self.validate(exe, module, sound, cfg, shards, timeout, label, minshard, scheds)
        if bad:
            self._confirm(exe, module, cfg, timeout, scheds, *bad)

    def _confirm(self, exe, module, cfg, timeout, scheds, st, info, part):
        blk = info["script"]
        rep = None
        for attempt, cand in enumerate(([blk], [blk], part)):
            st2, info2 = self._judge(exe, module, cfg, cand, timeout, "%s-confirm" % module, scheds)
            if st2 != "accepted":
                rep = (st2, info2, cand)
                break
        if rep is None:
            raise CheckError("a rejection by %s did not repeat: %s" % (module, info))
        st2, info2, cand = rep
        self.report(module, st2, info2, [interleave(cand, scheds)] if scheds else cand, exe)

    def report(self, module, st, info, blocks, exe):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + ".txt")
        with open(p, "w") as f:
            f.write("# property %s, specification %s: %s\n# %s\n" % (self.pid, module, st, json.dumps({k: v for k, v in info.items() if k not in ("tlc", "stderr", "script")})))
            f.write("# driver %s; script:\n" % os.path.basename(exe))
            for b in blocks:
                f.write("\n".join(b) + "\n")
            f.write("# ----\n" + "\n".join("# " + x for x in (info.get("tlc") or info.get("stderr") or "").splitlines()) + "\n")
        desc = "%s %s: %s" % (module, st, info.get("line") or (info.get("stderr") or "")[:400])
        for kf in self.known:
            if kf["match"] in desc or any(kf["match"] in "\n".join(b) for b in blocks):
                self.known_hit.append(kf)
                return
        self.violations.append({"spec": module, "status": st, "replay": p, "what": desc[:600]})

    # -------------------------------------------------------------- results
    def finish(self, level="model_checking"):
        wall = round(time.time() - self.t0, 2)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": wall, "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
            print("  " + v["what"])
        if not self.violations:
            print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
                self.pid, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["events_validated"], wall))
        return 1 if self.violations else 0


def slots_of(blocks, scheds):
    """the slot in which `interleave` executes each block, in order"""
    out, k = [], 0
    while len(out) < len(blocks):
        out += list(zip(sorted(set(scheds[k % len(scheds)])), blocks[len(out):]))
        k += 1
    return out


def interleave(blocks, scheds):
    """lines of the blocks, dealt out to the slots of the schedules (sequences of slot numbers, repeated as long as needed)"""
    out, todo, k = [], list(blocks), 0
    while todo:
        sch = scheds[k % len(scheds)]
        k += 1
        slots = sorted(set(sch))
        now = dict(zip(slots, todo))
        todo = todo[len(slots):]
        pos = dict.fromkeys(now, 0)
        while any(pos[s] < len(now[s]) for s in now):
            for s in sch:
                if s in now and pos[s] < len(now[s]):
                    out.append("%d|%s" % (s, now[s][pos[s]]))
                    pos[s] += 1
    return out


def tail(s, n=60):
    ls = [l for l in s.splitlines() if not l.startswith(("Loading ", "Parsing file", "Semantic processing", "Linting of"))]
    return "\n".join(ls[-n:])


def load_known(pid):
    """known findings: lines `finding: property=<id> match=<text> :: <what fails>`"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) match=(.+?) :: (.*)", ln.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out
