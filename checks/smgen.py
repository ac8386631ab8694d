"""script generator for the smoothing filters"""
from fractions import Fraction
from vlib import hx, f32

RECURSIVE = ["lpf1", "lpf2", "expw", "klmn", "desf", "alnf"]
WINDOW = ["mwm1", "mwm2", "mor1", "mor2", "gmwf"]
MC = {"lpf1": (0, .75, 0, 0), "lpf2": (0, .5, 0, 0), "expw": (0, .5, 0, 0), "klmn": (0, .5, 2, 4), "desf": (3, .25, .5, 0), "alnf": (3, .0625, .25, 0),
      "mwm1": (3, 0, 0, 0), "mwm2": (3, 0, 0, 0), "mor1": (3, .5, 0, 0), "mor2": (3, .5, 0, 0), "gmwf": (3, 1, 1, 0)}


def line(op, kind, n, a, b, c, win=1, wgt=1, w1=1, tm=0):
    return "%s %s %d %s %s %s %d %d %d %d" % (op, kind, n, hx(a), hx(b), hx(c), win, wgt, w1, tm)


def good(rnd, kind):
    """accepted parameters"""
    u = rnd.choice([0.01, 0.1, 0.5, 0.75, 0.8, 0.9, 0.99, rnd.uniform(0.02, 0.98)])
    n = rnd.choice([1, 2, 3, 4, 4, 5, 8, 10, 17, 33])
    if kind == "klmn":
        return (0, rnd.uniform(0.05, 20), rnd.choice([0.05, 0.3, rnd.uniform(0.5, 10)]), rnd.uniform(0.05, 50))
    if kind == "desf":
        return (rnd.randint(0, 10), u, rnd.uniform(0.02, 0.98), 0)
    if kind == "gmwf":
        n = rnd.choice([3, 4, 4, 5, 9, 10, 20])
        return (n, rnd.uniform(0.4, 4), rnd.choice([n / 2.0, (n - 1) / 2.0, rnd.uniform(0.05, n - 1.05)]), 0)
    if kind == "alnf":
        n = rnd.choice([1, 2, 3, 4, 4, 5, 8])
        return (n, rnd.uniform(0.001, 0.3 / n), rnd.choice([0, 0.1, 0.5, 0.8]), 0)
    if kind in ("mwm1", "mwm2"):
        return (n, 0, 0, 0)
    if kind in ("mor1", "mor2"):
        return (n, rnd.choice([0.05, 0.3, 0.5, 0.9, rnd.uniform(0.02, 0.98)]), 0, 0)
    return (0, u, 0, 0)


BADU = [0.0, 1.0, -0.5, 1.5, float("nan"), -1e-30, float("inf"), 1.0000001, -0.0]


EDGE = [1e-7, 1e-9, 1e-30, 1e-38, 0.99999994, 0.999]


def bad(rnd, kind):
    """rejected parameters: (n,a,b,c,win,wgt)"""
    n, a, b, c = good(rnd, kind)
    win = wgt = 1
    r = rnd.random()
    if kind in ("lpf1", "lpf2", "expw"):
        a = rnd.choice(BADU)
    elif kind == "klmn":
        v = [a, b, c]
        v[rnd.randrange(3)] = rnd.choice([0.0, -1.0, float("nan")])
        a, b, c = v
    elif kind == "desf":
        if r < 0.5:
            a = rnd.choice(BADU)
        else:
            b = rnd.choice(BADU)
    elif kind in ("mwm1", "mwm2"):
        if r < 0.5:
            win = 0
        else:
            n = 0
    elif kind in ("mor1", "mor2"):
        if r < 0.3:
            win = 0
        elif r < 0.6:
            n = 0
        else:
            a = rnd.choice(BADU)
    elif kind == "gmwf":
        if r < 0.2:
            win = 0
        elif r < 0.4:
            wgt = 0
        elif r < 0.6:
            a = rnd.choice([0.0, -1.0, float("nan")])
        elif r < 0.8:
            b = rnd.choice([n, n + 1, 1e9, float("nan")])
        else:
            n = 0
    elif kind == "alnf":
        if r < 0.2:
            win = 0
        elif r < 0.4:
            wgt = 0
        elif r < 0.6:
            n = 0
        elif r < 0.8:
            a = rnd.choice(BADU)
        else:
            b = rnd.choice([1.0, -0.1, 2.0, float("nan")])
    return (n, a, b, c, win, wgt)


def every_bad(rnd, kind):
    """one history that tries every way of being rejected, at the edges, between samples"""
    n, a, b, c = good(rnd, kind)
    if kind not in ("lpf1", "lpf2", "expw", "klmn"):
        n = max(n, 3)
    tries = []
    if kind in ("lpf1", "lpf2", "expw", "mor1", "mor2", "desf", "alnf"):
        tries += [(n, v, b, c, 1, 1) for v in BADU]
    if kind == "desf":
        tries += [(n, a, v, c, 1, 1) for v in BADU]
    if kind == "klmn":
        for v in (0.0, -0.0, -1e-30, -1.0, float("nan")):
            tries += [(n, v, b, c, 1, 1), (n, a, v, c, 1, 1), (n, a, b, v, 1, 1)]
    if kind in WINDOW or kind == "alnf":
        tries += [(n, a, b, c, 0, 1), (0, a, b, c, 1, 1)]
    if kind == "alnf":
        tries += [(n, a, b, c, 1, 0)] + [(n, a, v, c, 1, 1) for v in (1.0, -1e-30, -0.1, 2.0, float("nan"))]
    if kind == "gmwf":
        tries += [(n, a, b, c, 1, 0)] + [(n, v, b, c, 1, 1) for v in (0.0, -0.0, -1.0, float("nan"))] + [(n, a, v, c, 1, 1) for v in (n, n + 1, 1e9, float("nan"))]
    s = [line("new", kind, *tries[0])]
    s.append(line("setup", kind, n, a, b, c))
    for k in tries:
        s += ["x " + hx(rnd.uniform(-1, 1)), line("setup", kind, *k), "x " + hx(rnd.uniform(-1, 1))]
    return s


def edges(rnd, kind):
    """parameters just inside the admissible set are accepted, and the filter is usable after the next ordinary set-up"""
    n, a, b, c = good(rnd, kind)
    if kind == "klmn":
        opts = [(v, b, c) for v in EDGE[:4]] + [(a, v, c) for v in EDGE[:4]] + [(a, b, v) for v in EDGE[:4]] + [(1e30, b, c)]
    elif kind == "desf":
        opts = [(v, b, c) for v in EDGE] + [(a, v, c) for v in EDGE]
    elif kind == "alnf":
        opts = [(v, b, c) for v in EDGE] + [(a, v, c) for v in EDGE + [0.0, -0.0]]
    elif kind == "gmwf":
        opts = [(v, b, c) for v in (0.05, 1e3, 1e15)]
    else:
        opts = [(v, b, c) for v in EDGE]
    s = [line("new", kind, n, *opts[0])]
    for o in opts:
        s += [line("setup", kind, n, *o)]
    s += [line("setup", kind, n, a, b, c)] + ["x " + hx(x) for x in signal(rnd, kind, 6)]
    return s


def ties(rnd, kind):
    """samples that lie exactly on the threshold of the outlier test, all sums exact"""
    n, a = rnd.choice([1, 2, 4, 8]), rnd.choice([Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)])
    s = [line("new", kind, n, float(a), 0, 0, tm=rnd.choice([0, 1]))]
    w = None
    for _ in range(14):
        if w is None:
            x = Fraction(rnd.choice([8, -8, 16, 64, -32, 0]))
            w = [x] * n
        else:
            mu = sum(w) / n
            x = rnd.choice([mu * (1 + a), mu * (1 - a), mu * (1 + a) + Fraction(1, 64), mu * (1 - a) - Fraction(1, 64), mu])
            if x.denominator > 2 ** 12 or abs(x) > 2 ** 9:
                x = Fraction(rnd.randint(-20, 20))
        mu = sum(w) / n
        y = mu if abs(mu - x) > a * abs(mu) else x
        if y.denominator > 2 ** 9:
            break
        w = [y] + w[:-1]
        s.append("x " + hx(float(x)))
    return s


def signal(rnd, kind, length):
    mode = rnd.randrange(5)
    base = rnd.uniform(-50, 50)
    if kind == "alnf":
        return [rnd.uniform(-1, 1) for _ in range(length)]
    out = []
    for k in range(length):
        if mode == 0:
            v = base
        elif mode == 1:
            v = rnd.uniform(-100, 100)
        elif mode == 2:
            v = base + rnd.gauss(0, 1) + (rnd.choice([200, -300, 20]) if rnd.random() < 0.1 else 0)
        elif mode == 3:
            v = base + k * 0.5
        else:
            v = float(rnd.choice([0, 0, 1, -1, 10, 1e4]))
        out.append(v)
    return out


def block(rnd, kind, length, lifecycle):
    s = []
    if lifecycle and rnd.random() < 0.4:
        n, a, b, c, w, g = bad(rnd, kind)
        s.append(line("new", kind, n, a, b, c, w, g))
    n, a, b, c = good(rnd, kind)
    w1 = rnd.choice([0, 1]) if kind == "alnf" else 1
    s.append(line("setup" if s else "new", kind, n, a, b, c, 1, 1, w1, rnd.choice([0, 1])))
    for x in signal(rnd, kind, length):
        s.append("x " + hx(x))
        r = rnd.random()
        if lifecycle:
            if r < 0.12:
                s.append("reset")
            elif r < 0.2:
                s.append(line("setup", kind, *bad(rnd, kind)))
            elif r < 0.28:
                how = rnd.choice([0, 1, 2, 2])
                m, a, b, c = good(rnd, kind)
                while how == 2 and m != n:      # other parameters on the same storage
                    m, a, b, c = good(rnd, kind)
                n = m
                s.append(line("setup", kind, n, a, b, c, 1, 1, rnd.choice([0, 1]) if kind == "alnf" and how != 2 else 1, how))
        elif r < 0.01:
            s.append("reset")
    return s


def odd(rnd, kind):
    """samples that are no numbers or infinite; a reset or a new set-up starts afresh all the same"""
    n, a, b, c = good(rnd, kind)
    s = [line("new", kind, n, a, b, c)]
    for k in range(6):
        s += ["x " + hx(x) for x in signal(rnd, kind, rnd.randint(0, 6))]
        s.append("x " + hx(rnd.choice([float("nan"), float("nan"), float("inf"), float("-inf")])))
        s += ["x " + hx(x) for x in signal(rnd, kind, rnd.randint(0, 4))]
        if k % 2:
            s.append("reset")
        else:
            how = rnd.choice([0, 2, 2])
            m, a, b, c = good(rnd, kind)
            while how == 2 and m != n:
                m, a, b, c = good(rnd, kind)
            n = m
            s.append(line("setup", kind, n, a, b, c, 1, 1, 1, how))
        s += ["x " + hx(x) for x in signal(rnd, kind, rnd.randint(3, 8))]
    return s


def run(c, kinds, lifecycle, per_quick, per_thorough, length):
    import random
    rnd = random.Random(c.seed * 7919 + (1 if lifecycle else 0))
    hist = c.generate("SmootherMC", extra=())
    exe = c.build("smoother")
    if not lifecycle or c.thorough:
        blocks = []
        for k, h in enumerate(hist):
            for kd in (kinds if c.thorough else [kinds[k % len(kinds)], kinds[(k + 1) % len(kinds)]]):
                n, a, b, p = MC[kd]
                blocks.append([line("new", kd, n, a, b, p)] + h)
        c.validate(exe, "SmootherTrace", blocks, label="behaviours of the model replayed")
    blocks = []
    for kd in kinds:
        for _ in range(per_thorough if c.thorough else per_quick):
            blocks.append(block(rnd, kd, length, lifecycle))
        if lifecycle:
            blocks += [every_bad(rnd, kd), edges(rnd, kd)]
            blocks += [odd(rnd, kd) for _ in range(20 if c.thorough else 4)]
        elif kd in ("mor1", "mor2"):
            blocks += [ties(rnd, kd) for _ in range(400 if c.thorough else 60)]
    c.validate(exe, "SmootherTrace", blocks, label="random histories")
    if not lifecycle:       # large windows and long histories
        blocks = []
        for kd in kinds:
            n, a, b, p = good(rnd, kd)
            if kd in WINDOW or kd == "alnf":
                for n in ((257, 300, 512) if c.thorough else (rnd.choice([257, 260, 300]),)):
                    par = (n, 40.0, n * 0.6, 0) if kd == "gmwf" else (n, 0.01 / n, 0.1, 0) if kd == "alnf" else (n, a, b, p)
                    blocks.append([line("new", kd, *par)] + ["x " + hx(x) for x in signal(rnd, kd, 2 * n + 40 if kd not in ("gmwf", "alnf") else n + 40)])
            blocks.append([line("new", kd, *good(rnd, kd))] + ["x " + hx(x) for x in signal(rnd, kd, 2500 if c.thorough else 700)])
        # more samples than a 16 bit counter holds: the filter settles, is held there, and moves on around the wrap
        for kd in kinds:
            for q in range(6 if c.thorough else 2):
                n, a, b, p = good(rnd, kd)
                if kd in ("lpf1", "expw", "desf", "lpf2"):
                    a = rnd.uniform(0.3, 0.7)
                if kd == "desf":
                    b = rnd.uniform(0.3, 0.7)
                if kd == "klmn":
                    a, b = rnd.uniform(1, 5), rnd.uniform(0.5, 5)
                x0 = rnd.choice([0.5, 0.25]) if kd == "alnf" else float(rnd.randint(1, 9))
                s = [line("new", kd, n, a, b, p)] + ["x " + hx(x0)] * 60
                done, lead = 60, rnd.randint(3, 5)
                for wrap in (65536, 131072)[:2 if q == 0 else 1]:
                    s.append("hold %d x %s" % (wrap - lead - done, hx(x0)))
                    s += ["x " + hx(x0 * rnd.choice([1.125, 0.75, 1.0625, 3.0, -1.0])) for _ in range(8)]
                    s += ["x " + hx(x0)] * 60
                    done = wrap - lead + 68
                blocks.append(s)
        c.validate(exe, "SmootherTrace", blocks, label="large windows, long histories")
