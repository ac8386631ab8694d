"""C11: recursive RMS estimator."""
import math
import random
from vlib import hx


def run(c):
    c.model_check("RMSMC")
    exe = c.build("rms")
    rnd = random.Random(c.seed)
    blocks = []
    for q in range(600 if c.thorough else 100):
        n = rnd.choice([1, 2, 3, 8, 8, 16, 5, 30])
        s = []
        if rnd.random() < 0.2:
            s.append(rnd.choice(["new 0 1", "new 5 0", "new 0 0"]))
            if rnd.random() < 0.5:
                s.append("par 0.5 0.5")
        s.append("%s %d 1 %d" % ("setup" if s else "new", n, rnd.choice([0, 1])))
        if rnd.random() < 0.6:
            s.append("par %s %s" % (hx(rnd.choice([0.5, 0.9, 1, 0.01, rnd.uniform(0, 1)])), hx(rnd.choice([0.5, 0.9, 0.05, rnd.uniform(0.01, 0.99)]))))
        amp = rnd.choice([1, 10, 0.1, 300, 1e4])
        mode = rnd.randrange(5)
        for k in range(rnd.choice([20, 60, 120 if q % 4 == 0 else 40])):
            x = amp * (math.sin(2 * math.pi * 0.05 * k + q) if mode == 0 else 1 if mode == 1 else rnd.uniform(-1, 1) if mode == 2 else (-1) ** k if mode == 3 else (1 if k > 12 else 0))
            s.append("x " + hx(x))
            r = rnd.random()
            if r < 0.01:
                s.append("par %s %s" % (hx(rnd.choice([0, 1, -0.1, 1.1, 0.3, float("nan")])), hx(rnd.choice([0, 0.5, -0.1, 1.1, 0.3, float("nan")]))))
            elif r < 0.015:
                s.append("setup %d %d" % (rnd.choice([0, 4, 9]), rnd.choice([0, 1, 1])))
            elif r < 0.025:
                s.append("setup %d 1 2" % n)
        blocks.append(s)
    # every admissible and inadmissible edge of the parameters
    edge = [0.0, -0.0, 1.0, 1.0000001, 1e-3, 0.99999994, -1e-30, 1.02, float("inf"), float("nan"), 0.5]
    for n in (4, 7):
        s = ["new %d 1 0" % n]
        for u in edge:
            s += ["par %s %s" % (hx(u), hx(0.5)), "x 2", "par %s %s" % (hx(0.5), hx(u)), "x " + hx(rnd.uniform(-3, 3)), "par %s %s" % (hx(1), hx(u)), "x -1"]
        blocks.append(s)
    c.validate(exe, "RMSTrace", blocks)
    blocks = []
    for _ in range(60 if c.thorough else 12):       # samples that are no numbers, then a new set-up
        n = rnd.randint(1, 9)
        s = ["new %d 1" % n]
        for _ in range(3):
            s += ["x " + hx(rnd.uniform(-9, 9)) for _ in range(4)] + ["x " + hx(rnd.choice([float("nan"), float("inf"), float("-inf")]))] + ["x 1"] * rnd.randint(0, 2)
            s += ["setup 0 1"][:rnd.randrange(2)] + ["setup %d 1" % rnd.choice([n, n, rnd.randint(1, 9)])] + ["x " + hx(rnd.uniform(-9, 9)) for _ in range(n + 3)]
        blocks.append(s)
    c.validate(exe, "RMSTrace", blocks, label="samples that are no numbers, then a new set-up")
    # large windows, long histories
    blocks = [["new %d 1" % n, "par 0.75 0.5"] + ["x " + hx(rnd.choice([1, 1, 20]) * math.sin(0.11 * k) + rnd.uniform(-1, 1)) for k in range(length)]
              for n, length in ((257, 600), (300, 700), (4, 900), (16, 700))]
    # held at a constant beyond what a 16 bit counter holds, moved around the wrap
    for n, wraps in ((4, (65536, 131072)), (7, (65536,)), (300, (65536,))):
        s, done, lead = ["new %d 1" % n, "par 0.5 0.5"] + ["x 3"] * 60, 60, rnd.randint(3, 5)
        for wrap in wraps:
            s.append("hold %d x 3" % (wrap - lead - done))
            s += ["x " + hx(rnd.choice([-3, 1, 5, 0.5])) for _ in range(8)] + ["x 3"] * 80
            done = wrap - lead + 88
        blocks.append(s)
    c.validate(exe, "RMSTrace", blocks, label="large windows, long histories")
