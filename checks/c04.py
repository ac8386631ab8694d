"""C04: fixed point arithmetic."""
import random
from fpgen import EDGE, M, rraw, pairs_lines, one_lines, blocks_of


def near_ties(rnd):
    """a product or quotient at or next to a rounding tie"""
    a = rnd.getrandbits(rnd.randint(1, 20)) | 1
    k = rnd.randint(0, 15)
    x, y = a << k, (rnd.getrandbits(rnd.randint(1, 12)) | 1) << (15 - k)
    return (max(-M, min(M, rnd.choice([-1, 1]) * x)), max(-M, min(M, rnd.choice([-1, 1]) * y + rnd.choice([0, 0, 1, -1]))))


def limit_pairs(rnd, op):
    """operands whose exact result lies next to the end of the range"""
    t = rnd.choice([M, M + 1, -M, -M - 1]) + rnd.randint(-2, 2)
    if op == "add":
        x = rraw(rnd)
        y = t - x
    elif op == "sub":
        x = rraw(rnd)
        y = x - t
    elif op == "mul":
        x = rraw(rnd) or 65536
        y = (t * 65536) // x + rnd.randint(-1, 1)
    else:
        y = rnd.randint(1, 65536) * rnd.choice([1, -1])
        x = (t * y) // 65536 + rnd.randint(-1, 1)
    return (x, y) if abs(x) <= M and abs(y) <= M else None


def run(c):
    c.model_check("FP16Alg", "FP16AlgT.cfg" if c.thorough else "FP16Alg.cfg")
    exe = c.build("fp16")
    rnd = random.Random(c.seed)
    n = 200000 if c.thorough else 40000
    lines = []
    core = [0, 1, -1, 32768, 65535, 65536, -65536, 65537, -32768, M, -M, 1 << 30, -(1 << 30), 98304, -2, 3]
    for op in ("add", "sub", "mul", "div"):
        ps = [(x, y) for x in core for y in core]
        ps += [(rraw(rnd), rraw(rnd)) for _ in range(n)]
        ps += [p for p in (limit_pairs(rnd, op) for _ in range(n // 3)) if p]
        if op in ("mul", "div"):
            ps += [near_ties(rnd) for _ in range(n // 3)]
        if op == "mul":     # the cross products of the half words are extreme
            ps += [(-rnd.randint(1, 300), -M + rnd.randint(0, 80000)) for _ in range(n // 6)]
            ps += [(rnd.randint(-400, 400), rnd.choice([1, -1]) * (M - rnd.randint(0, 400000))) for _ in range(n // 6)]
        lines += pairs_lines("arith " + op, ps)
    ps = [(x, y) for x in core for y in core] + [(x, x) for x in EDGE] + [(x, x + 1) for x in EDGE if x < M] + [(rraw(rnd), rraw(rnd)) for _ in range(n // 4)]
    lines += pairs_lines("cmp", ps)
    xs = [x for x in EDGE] + [rraw(rnd) for _ in range(n // 4)]
    for f in ("inc", "dec", "neg", "copy", "isovf", "isexpmax"):
        lines += one_lines("un " + f, xs + [M - 65536, M - 65535, -M + 65536, -M + 65535, 681391, -681391, 681390, 681392, -681390, -681392])
    c.validate(exe, "FP16Trace", blocks_of(lines))
    c.assumptions.append("operands are representable values, not the overflow marker")
