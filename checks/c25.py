"""C25: fast elementary functions."""
import math
import random
import struct
from vlib import hx, f32

ALL = ["sqrt", "rSqrt", "cbrt", "rCbrt", "recip", "sin", "cos", "tan", "asin", "acos", "atan", "exp2", "exp", "exp10", "expm1",
       "log2", "log", "log10", "log1p", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"]
SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1e-45, -1e-45, 2.0 ** -126, -2.0 ** -126, 2.0 ** -127, 3.4028234e38, -3.4028234e38, float("inf"), float("-inf"), float("nan")]
EDGES = {"sin": [math.pi, -math.pi, math.pi / 2, 2 * math.pi, 0.0066, 0.0067, -0.0066], "cos": [math.pi, math.pi / 2, -math.pi / 2, 3 * math.pi / 2, 2 * math.pi],
         "exp2": [-125.99, -126, -126.5, 127.4, 127.5, 127.6, 127.99, 128, 128.1, 0.5, 1.5, -0.5], "exp": [-87.3, -87.4, 88.3, 88.6, 88.7, 88.8], "exp10": [-37.9, -38, 38.4, 38.5, 38.6],
         "sinh": [-88.6, -87.5, -87.2, 88.6, 90, -90], "cosh": [-88.6, -87.5, -87.2, 88.6, 90, -90], "tanh": [-45, 45, -44, -200, 9, -9, 43.6, 44.4],
         "asinh": [1e19, -1e19, 2e19, -3e19, 1e30, -1e30, 4097, -4097], "acosh": [1e19, 1.9e19, 3e19, 1e30, 1.0000001], "atanh": [0.9999999, -0.9999999],
         "asin": [0.9999999, -0.9999999, 1.0000001, -1.0000001], "acos": [0.9999999, -0.9999999, 1.0000001], "log1p": [-0.9999999, -1.0000001, 1e-8],
         "recip": [1e38, 1.8e38, 3.9e37, 4.1e37, -4.1e37, 1e-39, -1e-39, 1e-38], "log2": [1.4142135, 1.4142137, 0.70710677, 0.99999994, 1.0000001]}


def fl(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def run(c):
    if c.thorough:
        hist = c.generate("FFMC", "FFMCT.cfg")
    else:
        hist = c.generate("FFMC")
    exe = c.build("ffelem")
    rnd = random.Random(c.seed)
    t = c.thorough
    lat = [2.0 ** h["e"] * (1 + h["k"] / (1024 if t else 64)) for h in hist]
    lines = ["consts"]
    for f in ALL:
        xs = SPECIAL + EDGES.get(f, [])
        sub = lat if t else rnd.sample(lat, 60)
        xs = xs + [x * rnd.choice([1, -1]) for x in sub]
        for _ in range(20000 if t else 1800):
            k = rnd.randrange(5)
            if k == 0:
                xs.append(fl(rnd.getrandbits(32)))
            elif k == 1:
                xs.append(rnd.uniform(-4, 4))
            elif k == 2:
                xs.append(rnd.uniform(-1, 1))
            elif k == 3:
                xs.append(rnd.uniform(-100, 100) if f not in ("sin", "cos") else rnd.uniform(-1000, 1000))
            else:
                xs.append(rnd.choice([1, -1]) * 2.0 ** rnd.uniform(-30, 30))
        lines += ["%s %s" % (f, hx(f32(x))) for x in xs]
    c.validate(exe, "FFTrace", [["new"] + lines[k:k + 150] for k in range(0, len(lines), 150)], label="functions of one argument")
    lines = []
    core = [0.0, -0.0, 1.0, -1.0, 3.0, -4.0, 1e-3, -1e-3, 1e30, -1e30, 1e-30, -1e-30, 3.4e38, -3.4e38]

    def any1():
        k = rnd.randrange(4)
        return rnd.choice(core) if k == 0 else rnd.uniform(-5, 5) if k == 1 else rnd.choice([1, -1]) * 2.0 ** rnd.uniform(-100, 100) if k == 2 else rnd.uniform(-1000, 1000)
    inf, nan = float("inf"), float("nan")
    for x in core + [1e-44, -1e-40, inf, -inf, nan]:
        for y in core + [1e-44, -1e-40, inf, -inf, nan]:
            lines.append("hypot %s %s" % (hx(x), hx(y)))
    tiny = core + [1e-44, -1e-40, 1.1e-38, -1.1e-38, 3e-38, -3e-38, 1e-39]
    for x in tiny:
        for y in tiny:
            lines.append("atan2 %s %s" % (hx(x), hx(y)))
    for _ in range(40000 if t else 5000):
        lines.append("hypot %s %s" % (hx(f32(any1())), hx(f32(any1()))))
        s = 2.0 ** rnd.uniform(-120, 120)
        lines.append("hypot %s %s" % (hx(f32(s * rnd.uniform(-1, 1))), hx(f32(s * rnd.uniform(-1, 1)))))
        lines.append("atan2 %s %s" % (hx(f32(any1())), hx(f32(any1()))))
        b = rnd.choice([2.0 ** rnd.uniform(-20, 20), rnd.uniform(0, 3), 2.0 ** rnd.uniform(-120, 120), 1 + rnd.uniform(-1e-3, 1e-3), 0.0])
        e = rnd.choice([rnd.uniform(-3, 3), rnd.randrange(-5, 6), rnd.uniform(-60, 60), rnd.uniform(-1000, 1000)])
        lines.append("pow %s %s" % (hx(f32(b)), hx(f32(e))))
    c.validate(exe, "FFTrace", [["new"] + lines[k:k + 150] for k in range(0, len(lines), 150)], label="hypot, atan2, pow")
