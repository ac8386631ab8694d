"""script generator for the LTI systems"""
import cmath
import random
from vlib import hx

MCSYS = ["new d 0 2 2 1 0.5 2 -1", "new d 0 3 2 1 2 -1 1 0.5", "new d 1 1 4 1 1 -0.5 0.25 0.5", "new d 0 3 1 0.5 0.25 1 1",
         "new c 0 1 0.5 0 2 1 1", "new c 1 2 0.25 1 0 3 2 1 4", "new c 5 1 0.125 2 1 1 3", "new c 0 3 0.25 0 1 1 2 1 2 2 1", "new c 0 2 0.5 0 0 1 1 1 1"]
MCIM = [None, None, None, None, None, None, None, "simp", "rect"]


def polymul(p, q):
    r = [0.0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def stable_z(rnd, n):
    p = [1.0]
    while len(p) - 1 < n:
        if n - (len(p) - 1) >= 2 and rnd.random() < 0.5:
            r, t = rnd.uniform(0, 0.93), rnd.uniform(0, 3.14)
            p = polymul(p, [1.0, -2 * r * cmath.cos(t).real, r * r])
        else:
            p = polymul(p, [1.0, -rnd.uniform(-0.93, 0.93)])
    return p


def stable_s(rnd, n):
    p = [1.0]
    while len(p) - 1 < n:
        if n - (len(p) - 1) >= 2 and rnd.random() < 0.5:
            r, w = rnd.uniform(0.2, 2), rnd.uniform(0.1, 2)
            p = polymul(p, [1.0, 2 * r, r * r + w * w])
        else:
            p = polymul(p, [1.0, rnd.uniform(0.1, 3)])
    return p


def sysline(rnd, op, kind, bad=False):
    a0 = rnd.choice([1, 1, 2, -0.5, rnd.uniform(0.2, 5), -rnd.uniform(0.2, 5), rnd.choice([1 + 2.0 ** -rnd.randint(8, 17), 1 - 2.0 ** -rnd.randint(8, 17), -1.0])])
    if kind == "d":
        nb, na = rnd.choice([(1, 1), (1, 2), (2, 1), (3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (5, 2), (2, 5), (rnd.randint(1, 6), rnd.randint(1, 6))])
        b = [rnd.choice([0, 1, rnd.uniform(-2, 2), rnd.uniform(-2, 2)]) * a0 for _ in range(nb)]
        a = [x * a0 for x in stable_z(rnd, na - 1)]
        mode = rnd.choice([0, 1, 5])
        if bad:
            mode = rnd.choice([2, 3, 4, 0, 0])
            if mode == 0:
                if rnd.random() < 0.5:
                    b = []
                else:
                    a = []
        return "%s d %d %d %d %s" % (op, mode, len(b), len(a), " ".join(hx(x) for x in b + a)), max(len(a) - 1, len(b))
    n = rnd.choice([1, 1, 2, 2, 3, 4])
    dt = rnd.choice([0.01, 0.05, 0.1, 0.02])
    a = [x * a0 for x in stable_s(rnd, n)]
    b = [rnd.choice([0, 0, 1, rnd.uniform(-2, 2)]) * a0 for _ in range(n + 1)]
    if rnd.random() < 0.5:
        b[0] = 0
    mode = rnd.choice([0, 1, 5])
    if bad:
        mode = rnd.choice([2, 3, 4, 0])
        if mode == 0:
            return "%s c 0 0 %s %s %s" % (op, hx(dt), hx(1), hx(1)), 0
    return "%s c %d %d %s %s" % (op, mode, n, hx(dt), " ".join(hx(x) for x in b + a)), n


def run(c, kind):
    part(c, kind, c.build("lti"), 1200 if c.thorough else 150, "")
    if kind == "c":
        part(c, kind, c.build("lti", defs=("LTISYS_EVAL_MODEL_OBSERVABLE",)), 600 if c.thorough else 80, " (observable form)")


def part(c, kind, exe, count, note):
    rnd = random.Random(c.seed * 31 + ord(kind))
    hist = c.generate("LTIMC") if not note else []
    blocks = []
    mine = [k for k in range(len(MCSYS)) if MCSYS[k][4] == kind]
    for q, h in enumerate(hist):
        for k in (mine if c.thorough else [mine[q % len(mine)]]):
            blocks.append([MCSYS[k]] + (["im " + MCIM[k]] if MCIM[k] else []) + h)
    if blocks:
        c.validate(exe, "LTITrace", blocks, label="behaviours of the model replayed" + note)
    blocks = []
    for q in range(count):
        s = []
        live = True
        if rnd.random() < 0.15:
            l, n = sysline(rnd, "new", kind, True)
            s += [l, "u " + hx(1.5), "sat -1 1", "delay 3 0", "init"]
            if kind == "c":
                s.append("im rect")
            l, n = sysline(rnd, "setup", kind)
        else:
            l, n = sysline(rnd, "new", kind)
        s.append(l)
        if kind == "c" and rnd.random() < 0.7:
            s.append("im " + rnd.choice(["rect", "trap", "simp", "simp", "quad"]))
        if rnd.random() < 0.5:
            s.append("init " + " ".join(hx(rnd.uniform(-5, 5)) for _ in range(n)))
        if rnd.random() < 0.4:
            s.append("delay %d %s" % (rnd.choice([1, 2, 3, 7, 12]), hx(rnd.choice([0, rnd.uniform(-3, 3)]))))
        if rnd.random() < 0.3:
            s.append("sat %s %s" % (hx(rnd.uniform(-3, 0)), hx(rnd.uniform(0.5, 3))))
        mode = rnd.randrange(4)
        k0 = rnd.randrange(5)
        for k in range(rnd.choice([10, 30, 60])):
            u = 1.0 if mode == 0 else rnd.uniform(-10, 10) if mode == 1 else (1.0 if k == k0 else 0.0) if mode == 2 else cmath.sin(0.3 * k).real * 4
            s.append("u " + hx(u))
            r = rnd.random()
            if r < 0.01:
                s.append("init")
            elif r < 0.02:
                s.append("init " + " ".join(hx(rnd.uniform(-5, 5)) for _ in range(n)))
            elif r < 0.03:
                s.append("sat %s %s" % (hx(rnd.choice([-1, 2, rnd.uniform(-3, 3)])), hx(rnd.choice([-1, 2, rnd.uniform(-3, 3)]))))
            elif r < 0.035:
                s.append("delay %d %s" % (rnd.choice([1, 2, 5]), hx(rnd.uniform(-3, 3))))
            elif r < 0.05:
                s.append(sysline(rnd, "setup", kind, True)[0])
            elif r < 0.06:
                l, n = sysline(rnd, "setup", kind)
                if rnd.random() < 0.5:
                    l = l.split()
                    l[2] = "6"
                    old = [x.split() for x in s if x.startswith(("new", "setup")) and x.split()[2] == "0" and x.split()[3] != "0" and (kind == "c" or x.split()[4] != "0")]
                    if old and rnd.random() < 0.8:      # the same system again, or one of the same dimensions
                        o = old[-1]
                        l = ["setup", o[1], "6"] + o[3:]
                        n = max(int(o[4]) - 1, int(o[3])) if kind == "d" else int(o[3])
                        if kind == "d":
                            nb = int(o[3])
                            l[5:5 + nb] = [hx(rnd.uniform(-2, 2)) for _ in range(nb)]
                        else:
                            l[5:6 + n] = [hx(rnd.uniform(-2, 2)) for _ in range(n + 1)]
                    l = " ".join(l)
                s.append(l)
            elif r < 0.07 and kind == "c":
                s.append("im " + rnd.choice(["rect", "trap", "simp", "quad"]))
            elif r < 0.1:
                m = rnd.choice([1, 2, 3, 5, 8])
                hasc = rnd.randrange(2)
                s.append("fir %d %d %s %s" % (m, hasc, hx(rnd.uniform(-9, 9)), " ".join(hx(rnd.uniform(-9, 9)) for _ in range(m * (1 + hasc)))))
        blocks.append(s)
    c.validate(exe, "LTITrace", blocks, label="random systems and histories" + note)
    # high orders, long delays and long histories
    blocks = []
    if kind == "d":
        for nb, na, m in ((257, 1, 300), (260, 4, 280), (3, 260, 275), (60, 70, 120)):
            a = stable_z(rnd, min(na, 4) - 1) + [rnd.uniform(-1, 1) * 1e-3 for _ in range(na - min(na, 4))]
            b = [rnd.uniform(-1, 1) for _ in range(nb)]
            blocks.append(["new d 0 %d %d %s" % (nb, na, " ".join(hx(x) for x in b + a))] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(m)])
        blocks.append(["new d 0 2 2 1 0.5 2 -1"] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(700)])
        blocks.append(["new d 0 2 2 1 0.5 2 -1", "delay 300 0.5"] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(620)])
        blocks.append(["new d 0 1 1 1 1", "fir 300 1 0.5 " + " ".join(hx(rnd.uniform(-3, 3)) for _ in range(600))])
    else:
        for im in ("rect", "trap", "simp", "quad"):
            blocks.append(["new c 0 2 0.05 0 1 2 1 1.5 2", "im " + im] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(500)])
            n = rnd.choice([6, 8])
            a = stable_s(rnd, n)
            blocks.append(["new c 0 %d 0.01 %s" % (n, " ".join(hx(x) for x in [0.0] + [rnd.uniform(-1, 1) for _ in range(n)] + a)), "im " + im] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(30)])
        blocks.append(["new c 0 1 0.1 0 2 1 1", "delay 260 0"] + ["u " + hx(rnd.uniform(-2, 2)) for _ in range(540)])
    # started anew from the states it is in, in the middle of a run, and after samples that are no numbers
    odd = [float("nan"), float("inf"), float("-inf")]
    for q in range(24 if c.thorough else 8):
        n = rnd.randint(1, 4)
        if kind == "d":
            nb, na = rnd.randint(1, 5), rnd.randint(1, 5)
            s = ["new d 0 %d %d %s" % (nb, na, " ".join(hx(x) for x in [rnd.uniform(-1, 1) for _ in range(nb)] + stable_z(rnd, na - 1)))]
            n = max(nb, na - 1)
        else:
            s = ["new c 0 %d 0.05 %s" % (n, " ".join(hx(x) for x in [rnd.choice([0.0, 0.5])] + [rnd.uniform(-1, 1) for _ in range(n)] + stable_s(rnd, n)))]
            s.append("im " + ("rect", "trap", "trap", "simp")[q % 4])
        go = lambda m: ["u " + hx(rnd.uniform(-3, 3)) for _ in range(m)]
        s += go(4) + ["init own"] + go(5) + ["init own", "u 0", "init own", "init own"] + go(3)
        for _ in range(3):
            s += ["u " + hx(rnd.choice(odd))] + go(rnd.randint(0, 3)) + [rnd.choice(["init", "init " + " ".join(hx(rnd.uniform(-2, 2)) for _ in range(n)), "setup" + s[0][3:].replace(" 0 ", " 6 ", 1)])]
            if s[-1].startswith("setup") and kind == "c":
                s.append("im " + ("rect", "trap", "trap", "simp")[q % 4])
            s += go(5)
        if q % 2:
            s += ["delay 3 1"] + go(4) + ["u " + hx(rnd.choice(odd))] + go(4) + ["init"] + go(4)
        blocks.append(s)
    # more steps than a 16 bit counter holds
    for q in range(2):
        wrap = 65536
        lead = rnd.randint(4, 9)
        if kind == "d":
            s = ["new d 0 2 3 1 0.5 2 -0.5 0.25"] + ([] if q else ["delay 5 0.5", "sat -3 3"])
        else:
            s = ["new c 0 2 0.25 0 1 2 1 3 2"] + (["im simp"] if q else ["delay 5 0.5", "sat -3 3"])
        s += ["u 1"] * 90 + ["hold %d u 1" % (wrap - lead - 90)] + ["u " + hx(rnd.uniform(-3, 3)) for _ in range(20)]
        blocks.append(s)
    c.validate(exe, "LTITrace", blocks, label="high orders, long histories" + note)
