"""C07: numerical integration and derivation state."""
import random
from vlib import hx


def run(c):
    c.model_check("NumaMC")
    exe = c.build("numa")
    rnd = random.Random(c.seed)
    blocks = []

    def val():
        return rnd.choice([rnd.uniform(-10, 10), float(rnd.randint(-4, 4)), rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-4, 4)])
    n = 1500 if c.thorough else 160
    for b in range(n):
        k = rnd.randint(0, 3)
        s = ["new %d %s" % (k, " ".join(hx(val()) for _ in range(k)))]
        dt = rnd.choice([1.0, 0.1, 0.01, 2.0, 0.5])
        if b % 3:      # otherwise the default methods stay in force
            s.append("im " + rnd.choice(["rect", "trap", "simp", "quad"]))
            s.append("dm " + rnd.choice(["two", "back", "forw"]))
        for _ in range(40):
            r = rnd.random()
            if r < 0.5:
                s.append("int %s %s %d" % (hx(val()), hx(dt), rnd.choice([0, 1, 1, 2])))
            elif r < 0.8:
                s.append("der %s %s %d" % (hx(val()), hx(dt), rnd.choice([0, 1, 1, 2])))
            elif r < 0.85 and b % 3 == 1:
                s.append("im " + rnd.choice(["rect", "trap", "simp", "quad"]))
            elif r < 0.9 and b % 3 == 1:
                s.append("dm " + rnd.choice(["two", "back", "forw"]))
            elif r < 0.93:
                k = rnd.randint(0, 3)
                s.append("init %d %s" % (k, " ".join(hx(val()) for _ in range(k))))
            elif r < 0.95:
                dt = rnd.choice([1.0, 0.1, 0.01, 0.3])
            else:
                s.append("ops " + hx(rnd.choice([1, -2, 0.5, 3.25])))
        blocks.append(s)
    for im in ("rect", "trap", "simp", "quad"):
        blocks.append(["new 0", "im " + im, "dm two"] + ["%s %s %s 1" % (rnd.choice(["int", "int", "der"]), hx(val()), hx(0.1)) for _ in range(800)])
    for im in ("rect", "trap", "simp", "quad"):     # more steps than a 16 bit counter holds
        for op, dm in (("int", "two"), ("der", rnd.choice(["back", "forw"])), ("der", "two")):
            s = ["new 1 2.5", "im " + im, "dm " + dm] + ["%s %s 0.5 1" % (op, hx(val())) for _ in range(6)] + ["%s 0 0.5 1" % op] * 4
            s += ["hold %d %s 0 0.5 1" % (65526 - rnd.randint(3, 6), op)] + ["%s %s 0.5 1" % (op, hx(val())) for _ in range(14)]
            blocks.append(s)
    for im in ("rect", "trap", "simp", "quad"):     # samples that are no numbers, then a new start
        for dm in ("two", "back", "forw"):
            s = ["new 1 2.5", "im " + im, "dm " + dm]
            for _ in range(4):
                s += ["%s %s 0.5 1" % (rnd.choice(["int", "der"]), hx(val())) for _ in range(3)]
                s += ["%s %s 0.5 %d" % (rnd.choice(["int", "der"]), hx(rnd.choice([float("nan"), float("inf")])), rnd.randrange(2)), "int 1 0.5 1"][:rnd.randint(1, 2)]
                k = rnd.randint(0, 3)
                s += ["init %d %s" % (k, " ".join(hx(val()) for _ in range(k)))] + ["%s %s 0.5 1" % (rnd.choice(["int", "der"]), hx(val())) for _ in range(4)]
            blocks.append(s)
    c.validate(exe, "NumaTrace", blocks)
