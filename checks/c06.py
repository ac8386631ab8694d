"""C06: fixed point elementary functions."""
import random
from fpgen import EDGE, M, rraw, pairs_lines, one_lines, blocks_of

PI = 205887


def strat(rnd, lo, hi, n):
    """one point in each of n equal cells of [lo,hi]"""
    w = (hi - lo) / n
    return [min(hi, max(lo, int(lo + (k + rnd.random()) * w))) for k in range(n)]


def run(c):
    c.model_check("FP16Alg")
    exe = c.build("fp16")
    rnd = random.Random(c.seed)
    n = 60000 if c.thorough else 12000
    lines = []

    def fn(f, xs):
        lines.extend(one_lines("fn " + f, [x for x in xs if abs(x) <= M], 30))

    wide = list(EDGE) + [rraw(rnd) for _ in range(n)]
    sq = [k * k * 65536 // d for k in range(1, 182, 7) for d in (1, 4, 16)] + [(k * k + j) for k in range(2, 46000, 1511) for j in (-1, 0, 1)]
    fn("sqrt", wide + strat(rnd, 0, M, n) + strat(rnd, 0, 70000, n // 2) + sq + list(range(0, 300)) + strat(rnd, 0, 1 << 21, n // 2))
    fn("exp", wide[:n // 3] + strat(rnd, -700000, 700000, 2 * n) + [681391 + d for d in range(-4, 5)] + [-681391 + d for d in range(-4, 5)] + [65536, -65536, 65535, 65537])
    fn("log", wide + list(range(1, 200)) + strat(rnd, 1, 131072, n) + strat(rnd, 1, 7000000, n) + strat(rnd, 1, M, n // 2) + [6553600 + d for d in range(-3, 4)] + [3578144 + d for d in range(-2, 3)])
    fn("log2", wide + list(range(1, 200)) + strat(rnd, 1, 131072, n) + strat(rnd, 1, M, n // 2) + [(1 << k) + d for k in range(31) for d in (-1, 0, 1) if (1 << k) + d > 0])
    ang = strat(rnd, -PI - 70000, PI + 70000, 2 * n) + wide[:n // 2] + strat(rnd, -M, M, n // 3)
    ang += [k * 411775 // 8 + d for k in range(-18, 19) for d in (-2, -1, 0, 1, 2)]
    for f in ("wrapToPi", "radToDeg"):
        fn(f, ang)
    for f in ("sin", "cos", "tan"):
        fn(f, ang)
    deg = strat(rnd, -11796480 * 3, 11796480 * 3, n) + wide[:n // 2] + [k * 11796480 + d for k in range(-5, 6) for d in (-1, 0, 1)]
    for f in ("wrapTo180", "degToRad"):
        fn(f, deg)
    fn("atan", wide + strat(rnd, -655360, 655360, n))
    unit = strat(rnd, -65536, 65536, n) + [65536, -65536, 65535, -65535, 65534, 0, 1, -1, 46341, -46341]
    fn("asin", unit)
    fn("acos", unit)
    hyp = strat(rnd, -690000, 690000, n) + wide[:n // 3] + [681391 + d for d in (-2, -1, 0, 1)] + [-681391 + d for d in (-1, 0, 1, 2)] + [0, 1, -1] + strat(rnd, -66000, 66000, n // 3)
    for f in ("sinh", "cosh", "tanh"):
        fn(f, hyp)
    fn("tanh", [425984 + d for d in range(-3, 4)] + [-425984 + d for d in range(-3, 4)] + [720896, -720896, 720895])
    ps = [(rraw(rnd), rraw(rnd)) for _ in range(2 * n)]
    core = [0, 1, -1, 65536, -65536, M, -M, 1 << 30, -(1 << 30), 300000, -300000]
    ps += [(y, x) for x in core for y in core]
    ps += [(rnd.randint(-200000, 200000), rnd.randint(-200000, 200000)) for _ in range(n)]
    lines.extend(pairs_lines("fn2 atan2", ps, 30))
    pw = []
    for _ in range(n):
        e = rnd.randint(1, 40)
        lim = 32768.0 ** (1.0 / e)
        x = int(rnd.uniform(-1.15, 1.15) * lim * 65536)
        pw.append((max(-M, min(M, x)), e * 65536))
    for _ in range(n):
        x = rnd.choice([rnd.randint(1, 65536), rnd.randint(1, 10 * 65536), rnd.randint(1, M), rnd.randint(1, 300)])
        y = rnd.choice([rnd.randint(-4 * 65536, 4 * 65536), rnd.randint(-65536, 65536), -65536 * rnd.randint(1, 6)])
        pw.append((x, y))
    for _ in range(n // 2):
        pw.append((-rnd.randint(1000, 6 * 65536), -65536 * rnd.randint(0, 5)))
    pw += [(x, 0) for x in EDGE] + [(x, 65536) for x in EDGE] + [(65536, 65536 * k) for k in (2, 100, 32767)] + [(-65536, 65536 * k) for k in (2, 3, 100, 101)]
    lines.extend(pairs_lines("fn2 pow", pw, 20))
    rnd.shuffle(lines)
    c.validate(exe, "FP16Trace", blocks_of(lines, 8))
    c.assumptions.append("asin/acos are claimed on [-1,1]; pow for positive bases, and for negative bases with integer exponents")
