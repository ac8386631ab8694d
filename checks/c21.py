"""C21: 1D interpolation."""
import random
from vlib import hx, f32


def num(v):
    a = v.split("/")
    return int(a[0]) / float(a[1] if len(a) > 1 else 1)


def run(c):
    hist = c.generate("InterpMC")
    exe = c.build("interp1")
    rnd = random.Random(c.seed)
    t = c.thorough
    blocks = []
    for h in (hist if t else rnd.sample(hist, len(hist) // 4)):
        x, y = [num(v) for v in h["x"]], [num(v) for v in h["y"]]
        b = ["new 0 4 " + " ".join(map(hx, x + y))]
        for m in range(9):
            b.append("method %d" % m)
            b += ["get " + hx(v) for v in x] + ["get " + hx(rnd.uniform(x[0] - 1, x[-1] + 1)) for _ in range(2)] + ["get " + hx(rnd.choice([x[0] - 1, x[-1] + 1, (x[1] + x[2]) / 2]))]
        blocks.append(b)
    c.validate(exe, "InterpTrace", blocks, label="tables enumerated by the model, all methods")
    blocks = []
    for _ in range(3000 if t else 300):
        b = []

        def table(op, n, nul=0, keep=None):
            h = rnd.choice([1, 0.1, 10, 0.5])
            x = list(keep) if keep else [f32(rnd.choice([0, -2, 5, rnd.uniform(-5, 5)]) * h)]
            uni = rnd.random() < 0.4
            while len(x) < n:
                v = f32(x[-1] + h * (1 if uni else rnd.choice([0.5, 1, 2, rnd.uniform(0.3, 3)])))
                x.append(v)
            amp = rnd.choice([1, 1, 100, 0.01])
            kind = rnd.randrange(4)
            if kind == 0:
                y = [amp * rnd.randrange(-3, 4) for _ in x]
            elif kind == 1:
                y = [amp * rnd.uniform(-1, 1) for _ in x]
            elif kind == 2:
                y = [amp * v * 0.5 + 1 for v in x]
            else:
                y, s = [], 0
                for _ in x:
                    s += rnd.choice([0, 1, 0.1, rnd.random()])
                    y.append(amp * s * rnd.choice([1]))
            b.append("%s %s%d %s" % (op, "" if op == "redata" else "%d " % nul, n, " ".join(hx(v) for v in x + y)))
            return x
        n = rnd.choice([1, 2, 3, 4, 4, 5, 6, 8, 12])
        x = table("new", n)
        last = n            # size of the arrays handed over last
        for _ in range(rnd.choice([3, 5])):
            r = rnd.random()
            if r < 0.15:
                m = rnd.choice([0, 1, 3, 4, 5, 7])
                nul = rnd.choice([0, 0, 1, 2])
                x2 = table("data", m, nul)
                last = 0
                if nul == 0 and m >= 4:
                    x, last = x2, m
            elif r < 0.4 and last >= 4:
                x = table("redata", last, keep=rnd.choice([None, x]))
            if rnd.random() < 0.6:
                b.append("method %d" % rnd.choice(list(range(9)) + [9, 200]))
            if b[-1][0] != "n" and rnd.random() < 0.6:      # the point asked for last, after the change
                b += [l for l in b if l.startswith("get")][-1:]
            h = max(x[-1] - x[0], 1e-3) / len(x)
            for _ in range(4):
                r = rnd.random()
                v = rnd.choice(x) if r < 0.35 else rnd.uniform(x[0], x[-1]) if r < 0.75 else x[0] - h * rnd.choice([0.5, 1, 2, rnd.random()]) if r < 0.87 else x[-1] + h * rnd.choice([0.5, 1, 2, rnd.random()])
                b.append("get " + hx(v) if rnd.random() < 0.9 else "geti %d" % round(v))
        blocks.append(b)
    c.validate(exe, "InterpTrace", blocks, label="random tables and re-configurations")
    blocks = []
    for n in (5, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 100):
        for q in range(4 if t else 1):
            x = [f32(rnd.uniform(-3, 3))]
            while len(x) < n:
                x.append(f32(x[-1] + rnd.choice([0.5, 1, 0.25, rnd.uniform(0.2, 2)])))
            y = [rnd.uniform(-3, 3) + 0.5 * k for k in range(n)]
            b = ["new 0 %d %s" % (n, " ".join(hx(v) for v in x + y))]
            for m in (0, 1, 2, 3, 4, 5, 7, 8):
                b.append("method %d" % m)
                b += ["get " + hx(v) for v in (x if n < 21 or m < 3 else rnd.sample(x, 16))] + ["get " + hx(0.5 * (x[k] + x[k + 1])) for k in rnd.sample(range(n - 1), 4)]
            blocks.append(b)
    c.validate(exe, "InterpTrace", blocks, label="every knot of tables of many sizes")
    # large tables: the lookup index goes beyond 8 and 16 bits
    blocks = []
    for n in (255, 256, 257, 300, 66000):
        x = [0.5 * k if n < 1000 else 1.0 * k for k in range(n)]
        y = [rnd.choice([0, 1, 5, rnd.uniform(-3, 3)]) for _ in x]
        for m in (rnd.sample((1, 3, 4, 5, 7, 8), 6 if t else 2) if n > 1000 else (0, 1, 2, 3, 4, 5, 7, 8)):
            b = ["new 0 %d %s" % (n, " ".join(hx(v) for v in x + y)), "method %d" % m]
            qs = [x[-1], x[-2], x[-1] + 0.25, (x[-1] + x[-2]) / 2 + 0.0625, x[0] - 0.25, x[0], rnd.uniform(x[0], x[-1])]
            qs += [0.5 * (x[k] + x[k + 1]) for k in (254, 255, 256, 257, 65534, 65535, 65536) if k + 1 < n]
            if n < 1000:        # every part of the table, at, just below and just above the knots
                for k in rnd.sample(range(n), 24 if t else 8):
                    qs += [x[k], x[k] + 0.03125, x[k] - 0.03125]
            b += ["get " + hx(v) for v in (qs if t or n < 1000 else [qs[3], qs[-1]] + rnd.sample(qs, 2 if n > 1000 else 5))]
            blocks.append(b)
    c.validate(exe, "InterpTrace", blocks, label="large tables")
