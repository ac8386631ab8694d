"""C28: orthogonal polynomials and Bessel functions."""
import random
from vlib import hx, f32

inf, nan = float("inf"), float("nan")


def run(c):
    hist = c.generate("SFBMC", "SFBMCT.cfg") if c.thorough else c.generate("SFBMC")
    exe = c.build("ffspec")
    rnd = random.Random(c.seed)
    t = c.thorough
    n = 12 if t else 3
    NX = 24 if t else 8
    H = lambda *v: " ".join(hx(f32(x)) for x in v)
    lines = []
    for h in hist:
        d, x, p, b = h["n"], 2 * h["k"] / NX - 1, 6 * h["k"] / NX, 0.1 + 26 * h["k"] / NX
        nu = d // 3 + [0, 0.5, 0.3][d % 3]
        lines += ["poly hermite %d %s" % (d, H(x)), "poly laguerre %d %s" % (d, H(p)), "poly legendre %d %s" % (d, H(x))]
        lines += ["assoc %s %d %d %s" % (f, d, rnd.randrange(d + 2), H(v)) for f, v in (("laguerre", p), ("legendre", x), ("sph", p))]
        lines += ["bes %s %s" % (f, H(nu, b)) for f in "IJKN"]
        lines += ["bes %s %s" % (f, H(d, b)) for f in "jn"]
    for _ in range(150 * n):
        d, m = rnd.randrange(0, 25), rnd.choice([0, 1, 2, 3, rnd.randrange(0, 25)])
        x, p = rnd.choice([rnd.uniform(-1, 1), rnd.uniform(-1, 1), 1.0, -1.0, 0.0, -0.0]), rnd.choice([rnd.uniform(0, 5), rnd.uniform(0, 60), 0.0])
        lines += ["poly hermite %d %s" % (d, H(rnd.uniform(-5, 5))), "poly laguerre %d %s" % (d, H(p)), "poly legendre %d %s" % (rnd.choice([d, rnd.randrange(128)]), H(x))]
        m = min(m, d) if rnd.random() < 0.9 else m
        lines += ["assoc laguerre %d %d %s" % (d, m, H(p)), "assoc legendre %d %d %s" % (d, m, H(x)), "assoc sph %d %d %s" % (d, m, H(rnd.uniform(-3.2, 3.2)))]
    for d in (40, 64, 100, 127, 128, 170, 255, 256, 257, 300):        # high degrees
        x = rnd.uniform(-1, 1)
        lines += ["poly legendre %d %s" % (d, H(x)), "poly laguerre %d %s" % (d, H(rnd.uniform(0, 8))), "assoc laguerre %d %d %s" % (d, rnd.randrange(4), H(rnd.uniform(0, 6))), "assoc laguerre %d %d %s" % (rnd.randrange(1, 5), d, H(rnd.uniform(0, 90)))]
        lines += ["assoc legendre %d %d %s" % (d, rnd.randrange(3), H(x)), "assoc legendre %d %d %s" % (rnd.randrange(3), d, H(x)), "poly hermite %d %s" % (min(d, 60), H(rnd.uniform(-1, 1) * 0.5))]
        lines.append("assoc sph %d %d %s" % (min(d, 60), rnd.randrange(3), H(rnd.uniform(-3, 3))))
    for x in (nan, inf, -inf, -1.0, 1.5, -1.5, 1.0000001, 0.0):
        for d, m in ((0, 0), (1, 0), (2, 1), (3, 3), (2, 5)):
            lines += ["assoc laguerre %d %d %s" % (d, m, H(x)), "assoc legendre %d %d %s" % (d, m, H(x))]
            if x == x and abs(x) < 10 or x != x:
                lines.append("assoc sph %d %d %s" % (d, m, H(x)))
        for d in (0, 1, 2, 7):
            lines += ["poly %s %d %s" % (f, d, H(x)) for f in ("hermite", "laguerre", "legendre")]
        for nu in (0.0, 1.0, 0.5, 3.0):
            lines += ["bes %s %s" % (f, H(nu, x)) for f in "IJKN"] + ["bes %s %s" % (f, H(int(nu), x)) for f in "jn"]
    for nu in (nan, -1.0, -0.5, -2.0):
        lines += ["bes %s %s" % (f, H(nu, 1.0)) for f in "IJKN"]

    def order():
        k = rnd.randrange(6)
        if k < 3:
            return float(rnd.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10]))
        if k == 3:
            return rnd.randrange(0, 6) + 0.5
        if k == 4:
            return rnd.randrange(0, 5) + rnd.uniform(0.02, 0.98)
        return float(rnd.randrange(0, 41))

    def arg():
        k = rnd.randrange(8)
        if k < 2:
            return rnd.uniform(0.01, 2)
        if k < 4:
            return rnd.uniform(2, 12)
        if k < 6:
            return rnd.uniform(2, 60)
        if k == 6:
            return 2 ** rnd.uniform(-20, 6)
        return rnd.choice([1.9999999, 2.0, 3.1622777, rnd.uniform(60, 90), rnd.uniform(60, 1000), rnd.uniform(1000, 3000), 1000.0, 1000.5])
    for _ in range(200 * n):
        for f in "IJKN":
            lines.append("bes %s %s" % (f, H(order(), arg())))
        for f in "jn":
            lines.append("bes %s %s" % (f, H(rnd.choice([0, 1, 2, 3, rnd.randrange(30)]), arg())))
    lines += ["bes N " + H(30, 0.01), "bes n " + H(30, 0.01), "bes j " + H(20, 0.02), "bes j " + H(0, 1e-20), "bes K " + H(30, 0.01), "bes K " + H(0, 200), "bes I " + H(0, 200), "bes K " + H(2, 1e-30), "bes N " + H(0, 1e-30), "bes I " + H(40, 1)]
    rnd.shuffle(lines)
    c.validate(exe, "SFBTrace", [["new"] + lines[k:k + 60] for k in range(0, len(lines), 60)], label="polynomials and Bessel functions")
