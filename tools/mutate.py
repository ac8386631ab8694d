#!/usr/bin/env python3
"""Developer tool: mutation analysis.  mutate.py Cnn[,Cmm] FILE[,FILE] N [seed]
Takes the scripts of the quick checks, runs them against N random mutants of FILE (relative to src/), and lets TLC judge
the blocks whose trace differs from that of the unchanged tree.  Prints the survivors: SAME (no trace differs: equivalent or
not reached) and LOOSE (a trace differs and the specification accepts it)."""
import concurrent.futures as cf
import hashlib
import importlib
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks"]
import vlib  # noqa: E402

W = "/tmp/w/mut"
REPO = vlib.REPO


def spec_hash():
    h = hashlib.md5()
    for d in ("spec", "checks"):
        for f in sorted(os.listdir(V + "/" + d)):
            if os.path.isfile(V + "/" + d + "/" + f):
                h.update(open(V + "/" + d + "/" + f, "rb").read())
    return h.hexdigest()[:10]


class Rec(vlib.Check):
    """collects builds and jobs of a check"""
    def __init__(self, pid):
        super().__init__(pid, "quick", 1)
        self.builds, self.jobs = {}, []

    def model_check(self, module, cfg=None, **k):
        return ""

    def generate(self, module, cfg=None, **k):
        p = W + "/gen-%s-%s-%s" % (module, cfg, SH)
        if not os.path.exists(p):
            pickle.dump(super().generate(module, cfg, **k), open(p, "wb"))
        return pickle.load(open(p, "rb"))

    def build(self, name, sources=None, flags=(), asan=True, opt="-O1", std="c++11", defs=()):
        key = "B%d" % len(self.builds)
        self.builds[key] = dict(name=name, sources=sources, flags=flags, asan=asan, opt=opt, std=std, defs=defs)
        return key

    def validate(self, exe, module, blocks, cfg=None, **k):
        self.jobs.append((exe, module, cfg or module + ".cfg", blocks))


def compile_all(b, src, out, only=None, base=None):
    """objects of build b from source tree src into out; unchanged ones (not in only) are taken from base"""
    flags = ["g++", "-std=" + b["std"], b["opt"], "-w", "-I", src, "-I", V + "/drivers"]
    if b["asan"]:
        flags += ["-fsanitize=address,bounds,null,return", "-fno-sanitize-recover=all"]
    flags += list(b["flags"]) + ["-D" + d for d in b["defs"]]
    os.makedirs(out, exist_ok=True)
    objs = []
    for s in [V + "/drivers/" + b["name"] + ".cpp"] + [src + "/" + x for x in sorted(b["sources"] or [f for f in os.listdir(src) if f.endswith(".cpp")])]:
        o = os.path.basename(s) + (".d.o" if s.startswith(V) else ".o")
        if base and only is not None and (s.startswith(V) or os.path.basename(s) not in only):
            objs.append(base + "/" + o)
            continue
        r = subprocess.run(flags + ["-c", s, "-o", out + "/" + o], capture_output=True, text=True)
        if r.returncode:
            return None
        objs.append(out + "/" + o)
    r = subprocess.run(flags + objs + ["-o", out + "/exe"], capture_output=True, text=True)
    return None if r.returncode else out + "/exe"


def run(exe, blocks):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1")
    try:
        r = subprocess.run([exe], input="\n".join("\n".join(x) for x in blocks) + "\n", capture_output=True, text=True, timeout=60, env=env, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -9, ""


def split(out):
    bl = []
    for ln in out.splitlines():
        if ln.startswith('{"op":"new"') or not bl:
            bl.append([])
        bl[-1].append(ln)
    return bl


def mutants(path):
    txt = open(path).read().split("\n")
    res = []
    incomment = False
    for n, ln in enumerate(txt):
        s = ln.strip()
        if "/*" in s and "*/" not in s:
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith(("//", "#", "*", "/*", "namespace", "friend", "template", "class ", "using ", "static_assert", "@", "public:", "private:", "case ")) or not s:
            continue
        code = ln.split("//")[0].split("/*")[0]

        def add(new, what):
            if new != ln:
                res.append((n, ln, new, what))
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" < ", " > "), (" > ", " < "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), ("*", "/"), ("/", "*"), ("true", "false"), ("false", "true"), ("++", "--"), ("--", "++"), (" += ", " -= "), (" -= ", " += "), (" = -", " = "), ("( -", "( "),
                     (" & ", " | "), (" | ", " & "), (" << ", " >> "), (" >> ", " << "), ("Max(", "Min("), ("Min(", "Max("), ("sin(", "cos("), ("absolute(", "("), ("!", ""), (" ^ ", " | "), (" *= ", " = "), (" %", " /")):
            i = code.find(a)
            while i >= 0:
                if a in ("*", "/") and (code[max(0, i - 1):i + 2].count("*") + code[max(0, i - 1):i + 2].count("/") > 1 or re.search(r"(real_t|float|void|char|int\w*|size_t|t) \*?$", code[:i + 1]) or code[i + 1:i + 3] == "th"):
                    pass
                else:
                    add(ln[:i] + b + ln[i + len(a):], a + "->" + b)
                i = code.find(a, i + 1)
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?)(F|_re)", code):
            v = float(m.group(1))
            for nv in ((v * 1.03, ) if v else (0.5, )):
                add(ln[:m.start(1)] + repr(nv) + ln[m.end(1):], "const")
            if v:
                add(ln[:m.start(1)] + repr(v + 1.0) + ln[m.end(1):], "const+1")
        for m in re.finditer(r"(?<![\w.])(\d+)(U|UL|u)?(?![\w.])", code):
            add(ln[:m.start(1)] + str(int(m.group(1)) + 1) + ln[m.end(1):], "int+1")
            if int(m.group(1)) > 0:
                add(ln[:m.start(1)] + str(int(m.group(1)) - 1) + ln[m.end(1):], "int-1")
        if re.match(r"^\s*[\w\[\]\.\->\*\(\) :]+( = | \+= | -= |\*= |\().*;\s*$", ln) and not re.match(r"^\s*(const |return|static |real_t |float |auto |bool |size_t |int |uint|constexpr|virtual|inline|explicit)", ln):
            add(re.match(r"\s*", ln).group(0) + ";", "delete")
        m = re.match(r"^(\s*(?:\} else )?if) \( (.*) \) \{\s*$", ln)
        if m:
            add(m.group(1) + " ( !( " + m.group(2) + " ) ) {", "negate")
        m = re.match(r"^(.*\? )(.*)( : )(.*;)\s*$", ln)
        if m:
            add(m.group(1) + m.group(4).rstrip(";").rstrip() .join(["", ""]) + m.group(2) + " : " + m.group(2) + ";", "tern")
    return txt, res


def one(k, fn, n, txt, mu, recs, base):
    ln, old, new, what = mu
    d = W + "/m%d" % k
    shutil.rmtree(d, ignore_errors=True)
    src = d + "/src"
    shutil.copytree(REPO + "/src", src)
    t = list(txt)
    t[ln] = new
    open(src + "/" + fn, "w").write("\n".join(t))
    only = {os.path.basename(fn)} if fn.endswith(".cpp") else None
    verdict = "SAME"
    try:
        for pid, r in recs.items():
            for bk, b in r.builds.items():
                out = d + "/" + pid + bk
                exe = compile_all(b, src, out, only, base[pid, bk][0] if only else None)
                if exe is None:
                    return k, "NOCOMPILE", mu
                for j, (e, module, cfg, blocks) in enumerate(r.jobs):
                    if e != bk:
                        continue
                    rc, o = run(exe, blocks)
                    if rc:
                        return k, "KILLED", mu
                    ref = base[pid, bk][1][j]
                    got = split(o)
                    diff = [i for i in range(max(len(ref), len(got))) if i >= len(ref) or i >= len(got) or ref[i] != got[i]]
                    if not diff:
                        continue
                    if len(ref) != len(got):
                        return k, "KILLED", mu
                    verdict = "LOOSE" if verdict == "SAME" else verdict
                    for sel in (diff[:6], diff[6:]):
                        if not sel:
                            continue
                        path = d + "/trace.ndjson"
                        open(path, "w").write("\n".join(x for i in sel for x in got[i]) + "\n")
                        trc, tout = r.tlc(module, cfg, env={"TRACE": path}, workers="1", heap="2g", timeout=600)
                        if not ("No error has been found" in tout and trc == 0 and "ACCEPTED" in tout):
                            return k, "KILLED", mu
        return k, verdict, mu
    except Exception as ex:
        return k, "ERROR " + repr(ex)[:200], mu
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global SH
    os.makedirs(W, exist_ok=True)
    SH = spec_hash()
    pids, files, N = sys.argv[1].split(","), sys.argv[2].split(","), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    recs, base = {}, {}
    for pid in pids:
        r = Rec(pid)
        importlib.import_module("c" + pid[1:]).run(r)
        recs[pid] = r
        r.java_classes()
        for bk, b in r.builds.items():
            od = W + "/base-%d-%s-%s" % (os.getpid(), pid, bk)
            exe = compile_all(b, REPO + "/src", od)
            refs = {j: split(run(exe, bl)[1]) for j, (e, _, _, bl) in enumerate(r.jobs) if e == bk}
            base[pid, bk] = (od, refs)
    todo = []
    for fn in files:
        lo = hi = None
        if ":" in fn:
            fn, rng = fn.split(":")
            lo, hi = map(int, rng.split("-"))
        txt, ms = mutants(REPO + "/src/" + fn)
        todo += [(fn, txt, m) for m in ms if lo is None or lo <= m[0] + 1 <= hi]
    rnd = random.Random(seed)
    total = len(todo)
    rnd.shuffle(todo)
    todo = todo[:N]
    cnt = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one, os.getpid() * 10000 + i, fn, 0, txt, m, recs, base) for i, (fn, txt, m) in enumerate(todo)]
        for (fn, _, m), fu in zip(todo, futs):
            k, v, mu = fu.result()
            cnt[v] = cnt.get(v, 0) + 1
            if v not in ("KILLED", "NOCOMPILE"):
                print("%s %s:%d %s\n     - %s\n     + %s" % (v, fn, mu[0] + 1, mu[3], mu[1].strip(), mu[2].strip()), flush=True)
    print("TOTAL", total, cnt)
    for od, _ in base.values():
        shutil.rmtree(od, ignore_errors=True)
    for r in recs.values():
        r.close()


main()
