"""C26: wrapping, interpolation between values, mapping, geometry."""
import math
import random
from fractions import Fraction
from vlib import hx, f32


def run(c):
    hist = c.generate("GeoMC")
    exe = c.build("ffgeo")
    rnd = random.Random(c.seed)
    t = c.thorough
    H = lambda *v: " ".join(hx(f32(x)) for x in v)
    lines = []
    for h in (hist if t else rnd.sample(hist, 200)):
        P = [(float(Fraction(x)), float(Fraction(y))) for x, y in h["p"]]
        if rnd.random() < 0.5:
            P = P[:3]
        pts = [(rnd.randrange(-2, 10) / 4, rnd.randrange(-2, 10) / 4) for _ in range(6)]
        lines.append("poly %d %s %s" % (len(P), H(*[v for p in P for v in p]), H(*[v for p in pts for v in p])))
    for _ in range(4000 if t else 1000):
        n = rnd.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
        sc = rnd.choice([1, 1, 10, 1e-3, 1e6])
        ox, oy = rnd.choice([(0, 0), (0, 0), (3 * sc, -2 * sc)])
        k = rnd.randrange(3)
        if k == 0:
            P = [(rnd.uniform(-1, 1), rnd.uniform(-1, 1)) for _ in range(n)]
        elif k == 1:
            P = [((1 + (i % 2)) / 2 * math.cos(2 * math.pi * i / n), (1 + (i % 2)) / 2 * math.sin(2 * math.pi * i / n)) for i in range(n)]
        else:
            P = [(rnd.randrange(-3, 4) / 3, rnd.randrange(-3, 4) / 3) for _ in range(n)]
        P = [(f32(x * sc + ox), f32(y * sc + oy)) for x, y in P]
        pts = [(rnd.uniform(-1.2, 1.2) * sc + ox, rnd.uniform(-1.2, 1.2) * sc + oy) for _ in range(6)]
        p = rnd.choice(P)
        pts += [(p[0], rnd.uniform(-1.2, 1.2) * sc + oy), (rnd.uniform(-1.2, 1.2) * sc + ox, p[1])]
        lines.append("poly %d %s %s" % (n, H(*[v for q in P for v in q]), H(*[v for q in pts for v in q])))
    for n in (255, 256, 257, 300, 600):      # many vertices
        for _ in range(4 if t else 1):
            P = [(f32((1 + (i % 2)) / 2 * math.cos(2 * math.pi * i / n)), f32((1 + (i % 2)) / 2 * math.sin(2 * math.pi * i / n))) for i in range(n)]
            if rnd.random() < 0.5:
                P.reverse()
            an = [rnd.uniform(0, 2 * math.pi) for _ in range(16)] + [-0.01, 0.01, -0.02]
            pts = [(r * math.cos(x), r * math.sin(x)) for x in an for r in (rnd.uniform(0, 0.45), rnd.uniform(0.55, 0.95), rnd.uniform(1.05, 2))]
            lines.append("poly %d %s %s" % (n, H(*[v for q in P for v in q]), H(*[v for q in pts for v in q])))
    for _ in range(6000 if t else 1500):
        r = rnd.choice([1.0, rnd.uniform(0, 5), 0.0, 1e-3, 1e5])
        cx, cy = rnd.choice([(0, 0), (rnd.uniform(-3, 3), rnd.uniform(-3, 3))])
        an, d = rnd.uniform(0, 7), r * rnd.choice([0, 0.5, 0.999, 1, 1.001, 1.5, rnd.uniform(0, 2)])
        lines.append("circle " + H(cx + d * math.cos(an), cy + d * math.sin(an), cx, cy, r))
    c.validate(exe, "GeoTrace", [["new"] + lines[k:k + 60] for k in range(0, len(lines), 60)], label="geometry")
    lines = []
    PI = f32(math.pi)
    xs = [k * 90.0 for k in range(-40, 41)] + [f32(k * PI / 2) for k in range(-40, 41)] + [0.0, -0.0, 1e-45, -1e-45, 1e-20, -1e-20, 359.99997, 360.00003, 180.00002, -180.00002, 179.99998, -1e-7, 1e-7]
    xs += [rnd.uniform(-8, 8) for _ in range(8000 if t else 800)] + [rnd.uniform(-2000, 2000) for _ in range(8000 if t else 800)] + [rnd.choice([1, -1]) * 2 ** rnd.uniform(-30, 18) for _ in range(8000 if t else 800)]
    lines += ["wrap " + H(x) for x in xs]

    def v():
        k = rnd.randrange(6)
        return rnd.uniform(-5, 5) if k < 2 else rnd.randrange(-3, 4) if k == 2 else rnd.choice([1, -1]) * 2 ** rnd.uniform(-60, 60) if k == 3 else rnd.choice([0.0, -0.0, 1e38, -1e38, 3.4e38, -3.4e38, 1e-40, -1e-40]) if k == 4 else rnd.uniform(-1000, 1000)

    def tt():
        return rnd.choice([0.0, 1.0, 0.5, rnd.random(), rnd.random(), rnd.uniform(-2, 3), 1 - 2.0 ** -24, 1 + 2.0 ** -23, 2.0 ** -30, rnd.uniform(-1e3, 1e3)])
    for _ in range(12000 if t else 4000):
        a, b = v(), v()
        if rnd.random() < 0.15:
            b = a
        elif rnd.random() < 0.2:
            b = a * (1 + rnd.uniform(-1e-6, 1e-6))
        lines.append("lerp " + H(a, b, tt()))
        t1 = tt()
        t2 = rnd.choice([tt(), t1, t1 * (1 + 2.0 ** -23), t1 + 2.0 ** -24])
        lines.append("lerp2 " + H(a, b, t1, t2))
        lo = rnd.choice([rnd.uniform(-10, 10), rnd.randrange(-3, 4), 1000 * rnd.uniform(-1, 1)])
        hi = lo + rnd.choice([1, -1]) * rnd.choice([rnd.uniform(0.01, 20), 1, 4096])
        if f32(lo) == f32(hi):
            continue
        lines.append("map " + H(rnd.choice([lo, hi, (lo + hi) / 2, rnd.uniform(-20, 20)]), lo, hi, rnd.uniform(-100, 100), rnd.choice([rnd.uniform(-100, 100), 0])))
    c.validate(exe, "GeoTrace", [["new"] + lines[k:k + 100] for k in range(0, len(lines), 100)], label="wrapping, interpolation, mapping")
