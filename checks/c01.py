"""C01: tapped delay line."""
import random
from vlib import hx


def run(c):
    c.model_check("TDLRing")
    hist = c.generate("TDLMC")
    exe = c.build("tdl")
    c.validate(exe, "TDLTrace", hist, label="every history of the model (n<=4, length 7)")
    rnd = random.Random(c.seed)
    blocks = []
    sizes = list(range(1, 34)) + [64, 100, 257] + ([300, 500] if c.thorough else [])
    reps = 24 if c.thorough else 6
    for n in sizes:
        for _ in range(reps):
            b = ["new %d %s" % (n, hx(rnd.choice([0, 1.5, -3, rnd.uniform(-1e6, 1e6)])))]
            length = min(3 * n + 8, 220)
            for _k in range(length):
                r = rnd.random()
                if r < 0.94:
                    v = rnd.choice([rnd.uniform(-100, 100), float(rnd.randint(-5, 5)), 3.0e38, -1e-40, rnd.choice([float("nan"), float("inf"), float("-inf"), -0.0])])
                    b.append("ins " + hx(v))
                elif r < 0.98:
                    b.append("flush " + hx(rnd.choice([0, rnd.uniform(-9, 9), rnd.uniform(-9, 9), float("nan"), float("inf")])))
                else:
                    b.append("resetup " + hx(rnd.choice([0, rnd.uniform(-9, 9)])))
            blocks.append(b)
    blocks[0].append("blank")
    c.validate(exe, "TDLTrace", blocks, label="random long histories")
    # long lines and long histories: every counter of the line goes far beyond 8 and 16 bits
    blocks = []
    for n in (255, 256, 257, 600, 65535, 65536, 65537, 70001):
        for _ in range(6 if c.thorough else 1):
            b = ["new %d %s" % (n, hx(rnd.uniform(-9, 9)))]
            for m in (1, rnd.randrange(2, n), n - 2, rnd.choice([255, 256, 65536, 70000]), n, n + 1, rnd.randrange(1, 3 * n)):
                b += ["burst %d %d" % (m, rnd.randrange(-10 ** 6, 10 ** 6)), "ins " + hx(rnd.uniform(-9, 9))]
                if rnd.random() < 0.15:
                    b.append(rnd.choice(["flush ", "resetup "]) + hx(rnd.uniform(-9, 9)))
            blocks.append(b)
    for n in (1, 2, 3, 5):
        b = ["new %d 0" % n]
        for m in (254, 1, 1, 65279, 1, 1, 5, 131071, 1, 1, 1):
            b.append("burst %d %d" % (m, rnd.randrange(-10 ** 6, 10 ** 6)))
        blocks.append(b)
    c.validate(exe, "TDLTrace", blocks, label="long lines, long histories")
