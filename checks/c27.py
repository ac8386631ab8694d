"""C27: gamma family, error function, exponential integral, zeta, elliptic integrals."""
import random
from vlib import hx, f32

inf, nan = float("inf"), float("nan")


def run(c):
    hist = c.generate("SFMC", "SFMCT.cfg") if c.thorough else c.generate("SFMC")
    exe = c.build("ffspec")
    rnd = random.Random(c.seed)
    t = c.thorough
    n = 12 if t else 3
    U = [h["k"] / (80 if t else 20) for h in hist]
    H = lambda *v: " ".join(hx(f32(x)) for x in v)
    lines = []
    spec = [0.0, -0.0, 1.0, 2.0, inf, -inf, nan, 1e-40, -1e-40, 1.5e-38, 1e-30, -1e-30, 1e-7, 3e-8, 1e30, -1e30, 3.4e38]
    gx = spec + [1 / 9 + 11 * u for u in U] + [-(1 / 9 + 11 * u) for u in U] + [float(k) for k in range(-6, 40)] + [0.5, 1.5, -0.5, 11.999999, 12.0, 12.000001, 171.7, 34.9, 35.04, 35.05, 36, -34.5, -40.5, -200.5, -1000.5, -4.9999995, -5.0000005, 1.4616321, 0.9999999, 1.0000001, 3.9999998, 4.0000005]
    gx += [rnd.uniform(0, 12) for _ in range(150 * n)] + [rnd.uniform(12, 36) for _ in range(80 * n)] + [-rnd.uniform(0, 20) for _ in range(120 * n)] + [2 ** rnd.uniform(-120, 3) for _ in range(40 * n)]
    lines += ["tgamma " + H(x) for x in gx]
    lines += ["lgamma " + H(x) for x in gx + [2 ** rnd.uniform(4, 120) for _ in range(60 * n)] + [rnd.uniform(0.4, 5) for _ in range(60 * n)] + [171.5, 171.7, 1e4, 1e10]]
    lines += ["factorial " + H(x) for x in [0.0, -0.0, inf, -inf, nan, -1.0, -0.5, 35.0, 36.0, 34.999996, 1e10] + list(range(35)) + [k + 0.5 for k in range(35)]]
    for _ in range(150 * n):
        g = lambda: rnd.choice([rnd.uniform(0.01, 5), rnd.uniform(0.01, 30), rnd.randrange(1, 12), 2 ** rnd.uniform(-20, 6)])
        lines.append("beta " + H(g(), g()))
    lines += ["beta " + H(nan, 1), "beta " + H(1, nan)]
    lines += ["erf " + H(x) for x in [0.0, -0.0, inf, -inf, nan, 6, -6, 9, 1e10, -1e10, 0.5, 0.46875, 0.46876, 1, 4, 2.9999, 3.0001] + [5 * u for u in U] + [rnd.uniform(-4.5, 4.5) for _ in range(250 * n)] + [rnd.choice([1, -1]) * 2 ** rnd.uniform(-40, 3) for _ in range(60 * n)]]
    ex = [0.0, -0.0, inf, -inf, nan, 1, -1, -0.99999994, -1.0000001, 0.37250742, 36.04, 36.05, -99.9, -100.1, -86, -87, -88, 88, 88.5, 90, 94, 96, 1000, -1000]
    ex += [45 + 20 * u for u in U] + [-22 - 3 * u for u in U] + [1 / 9 + 11 * u for u in U] + [rnd.uniform(-1, 1) for _ in range(120 * n)] + [rnd.uniform(-30, 30) for _ in range(120 * n)] + [rnd.uniform(-90, 90) for _ in range(80 * n)] + [rnd.choice([1, -1]) * 2 ** rnd.uniform(-60, 0) for _ in range(40 * n)]
    lines += ["expint " + H(x) for x in ex]
    zx = [0.0, -0.0, 1, inf, -inf, nan, 2, 4, -1, -2, -3, -4, -19, -18.999, -19.001, 19.999, 20, 20.001, 1.01, 0.99, 1.001, 40, 61, -35.5, -41.5, -59.5] + [1 / 7 + 0.8 * u for u in U]
    zx += [rnd.uniform(1, 10) for _ in range(60 * n)] + [rnd.uniform(0, 1) for _ in range(40 * n)] + [rnd.uniform(-20, 0) for _ in range(60 * n)] + [rnd.uniform(-60, -19) for _ in range(40 * n)] + [rnd.uniform(10, 60) for _ in range(30 * n)]
    lines += ["zeta " + H(x) for x in zx]
    ks = [0.0, 1.0, -1.0, 1.0000001, -1.5, inf, -inf, nan, 0.5, -0.5, 0.9999] + [1 / 7 + 0.8 * u for u in U] + [rnd.uniform(-1, 1) for _ in range(80 * n)]
    lines += ["comp1 " + H(k) for k in ks] + ["comp2 " + H(k) for k in ks]
    for k in ks:
        lines.append("comp3 " + H(k, rnd.choice([rnd.uniform(-5, 0.95), rnd.uniform(-1, 0.9), 0, 1, nan, 0.5])))
    for _ in range(100 * n):
        k, nu, ph = rnd.uniform(-0.95, 0.95), rnd.uniform(-4, 0.9), rnd.choice([rnd.uniform(-1.6, 1.6), rnd.uniform(-20, 20), rnd.uniform(-0.01, 0.01), 0.0, nan if rnd.random() < 0.1 else 1.0])
        lines += ["inc1 " + H(k, ph), "inc2 " + H(k, ph), "inc3 " + H(0.9 * k, nu, ph)]
    lines += ["inc1 " + H(2, 1), "inc2 " + H(-2, 1), "inc3 " + H(2, 0, 1), "inc1 " + H(nan, 1), "inc2 " + H(nan, 1), "inc3 " + H(0.5, nan, 1), "inc3 " + H(nan, 0.5, 1)]
    for k in (1.0000001, 1.2, -1.5, 1.9, -3.0, inf, -inf):      # outside the domain whatever the amplitude
        ph = rnd.choice([0.05, -0.3, 0.5, 1.0, 4.0])
        lines += ["inc1 " + H(k, ph), "inc2 " + H(k, ph), "inc3 " + H(k, rnd.choice([-1, 0, 0.3]), ph)]
    rnd.shuffle(lines)
    c.validate(exe, "SFTrace", [["new"] + lines[k:k + 60] for k in range(0, len(lines), 60)], label="special functions")
