"""C14: transport delay."""
import random
from vlib import hx


def run(c):
    hist = c.generate("TransportMC")
    exe = c.build("transport")
    c.validate(exe, "TransportTrace", hist if c.thorough else hist[::3], label="behaviours of the model replayed")
    rnd = random.Random(c.seed)
    blocks = []
    for n in (1, 2, 3, 4, 5, 8, 17, 64, 100):
        for rep in range(8 if c.thorough else 3):
            s = ["new %d" % n + ("" if rep == 0 else " " + hx(rnd.uniform(-9, 9)))]
            for _ in range(2 * n + 30):
                s.append("x " + hx(rnd.choice([rnd.uniform(-100, 100), 0, 1e30, -1e-30, rnd.choice([float("nan"), float("inf"), float("-inf")])])))
            blocks.append(s)
    s = ["new 1"]
    for _ in range(2000 if c.thorough else 400):
        dt = rnd.choice([0.1, 0.01, 1, 0.5, 0.025, 0.001, rnd.uniform(0.001, 2)])
        s.append("steps %s %s" % (hx(rnd.choice([dt * rnd.randint(0, 4000), rnd.uniform(0, 100), dt * (rnd.randint(0, 500) + rnd.choice([0.25, 0.5, 0.75, 0.49, 0.51]))])), hx(dt)))
    blocks.append(s)
    c.validate(exe, "TransportTrace", blocks, label="random histories")
    blocks = []
    for n in (1, 2, 100, 300, 65535, 65536, 70000):
        for _ in range(4 if c.thorough else 1):
            b = ["new %d %s" % (n, hx(rnd.uniform(-9, 9)))]
            for m in (1, rnd.randrange(1, n + 1), n, rnd.choice([255, 256, 65536]), rnd.randrange(1, 2 * n + 1), 70000):
                b += ["burst %d %d" % (m, rnd.randrange(-10 ** 6, 10 ** 6)), "x " + hx(rnd.uniform(-9, 9))]
            blocks.append(b)
    c.validate(exe, "TransportTrace", blocks, label="long delays")
