"""C24: exact functions on the representation of floating point numbers."""
import random
import struct

FR = [0, 1, 2, 3, 0x3FFFFF, 0x400000, 0x400001, 0x7FFFFE, 0x7FFFFF]


def run(c):
    c.model_check("F32MC")
    c.model_check("F32MC", "F32MC1.cfg")
    exe = c.build("ffbits")
    rnd = random.Random(c.seed)
    t = c.thorough

    def mk(s, e, f):
        return (s << 31) | (e << 23) | f

    def B(x):
        return struct.unpack("<I", struct.pack("<f", x))[0]
    # one number: every exponent and sign with the corners of the fraction, every fraction boundary of the integer range, random ones
    xs = [mk(s, e, f) for e in range(256) for s in (0, 1) for f in FR]
    for e in range(126, 151):          # the bits around the binary point
        for k in range(24):
            for d in (-1, 0, 1):
                f = ((1 << k) + d) & 0x7FFFFF
                xs += [mk(rnd.randrange(2), e, f), mk(rnd.randrange(2), e, (0x7FFFFF ^ f))]
        for _ in range(200 if t else 12):
            j = e - 127
            whole = rnd.getrandbits(23) & ~((1 << max(0, 23 - j)) - 1) & 0x7FFFFF
            half = (1 << max(0, 22 - j)) & 0x7FFFFF
            for f in (whole, whole | half, (whole | half) - 1, (whole | half) + 1):
                xs.append(mk(rnd.randrange(2), e, f & 0x7FFFFF))
    xs += [rnd.getrandbits(32) for _ in range(60000 if t else 3000)]
    ys = [mk(s, 0, f) for f in [0] + [1 << k for k in range(23)] + [(1 << k) - 1 for k in range(1, 24)] for s in (0, 1)]
    xs += ys

    def blocks(lines, n=400):
        return [["new"] + lines[k:k + n] for k in range(0, len(lines), n)]
    ops = []
    for x in xs:
        ops += ["un %d" % x, "int %d" % x, "rexp %d" % x]
    c.validate(exe, "F32Trace", blocks(["const"] + ops), label="one number: classification, sign, rounding, decomposition")
    # scaling
    ops = []
    for x in [mk(s, e, f) for e in list(range(0, 4)) + [22, 23, 24, 126, 127, 128, 150, 253, 254, 255] for s in (0, 1) for f in FR] + [rnd.getrandbits(32) for _ in range(4000 if t else 200)]:
        e = (x >> 23) & 255
        ps = [0, 1, -1, 127 - e, 254 - e, 255 - e, -e, 1 - e, -e - 1, -22 - e, -23 - e, -24 - e, -25 - e, 2147483647, -2147483648]
        ps += [rnd.randrange(-300, 300) for _ in range(4)]
        ops += ["ldexp %d %d" % (x, p) for p in ps]
    c.validate(exe, "F32Trace", blocks(ops), label="ldexp")
    # two numbers
    core = [mk(s, e, f) for e in (0, 1, 2, 24, 126, 127, 128, 253, 254, 255) for s in (0, 1) for f in (0, 1, 0x400000, 0x7FFFFF)]
    ops, mids = [], []
    for x in core:
        for y in core:
            ops.append("bin %d %d" % (x, y))
            if max((x >> 23) & 255, (y >> 23) & 255) < 255:
                mids.append("mid %d %d" % (x, y))
    for _ in range(30000 if t else 2500):
        x = rnd.getrandbits(32)
        y = rnd.choice([rnd.getrandbits(32), x ^ 0x80000000, (x + rnd.choice([-2, -1, 1, 2])) & 0xFFFFFFFF, (x & 0xFF800000) | rnd.getrandbits(23)])
        ops.append("bin %d %d" % (x, y))
        if max((x >> 23) & 255, (y >> 23) & 255) < 255:
            mids.append("mid %d %d" % (x, y))
    c.validate(exe, "F32Trace", blocks(ops + mids), label="two numbers: copysign, nextAfter, midpoint")
    # comparisons
    fin = [x for x in core if (x >> 23) & 255 < 255]
    ops = []

    def some():
        k = rnd.randrange(4)
        if k == 0:
            return rnd.choice(fin)
        if k == 1:
            return B(rnd.randrange(-9, 10) / 4)
        while True:
            x = rnd.getrandbits(32)
            if (x >> 23) & 255 < 255:
                return x
    for _ in range(20000 if t else 2500):
        x = some()
        y = rnd.choice([some(), x, x ^ 0x80000000, B(rnd.randrange(-9, 10) / 4)])
        ops.append("eq %d %d" % (x, y))
        ops.append("eq %d %d %d" % (x, y, rnd.choice([some(), B(0.25), B(-0.5), 0])))
        ops.append("mm %d %d %d %d" % tuple(rnd.choice([some(), x, y, 0x7F800000, 0xFF800000]) for _ in range(4)))

        def key(b):
            return -(b & 0x7FFFFFFF) if b >> 31 else b
        lo, hi = sorted([some(), some()], key=key)
        ops.append("coerce %d %d %d" % (rnd.choice([some(), lo, hi, lo + 1, hi - 1 & 0xFFFFFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00001]), lo, hi))
    c.validate(exe, "F32Trace", blocks(ops), label="comparisons, extremes, coercion")
    # remainders
    ops = []
    for _ in range(40000 if t else 5000):
        k = rnd.randrange(5)
        if k == 0:
            x, y = B(rnd.randrange(-40, 41) / 4), B(rnd.randrange(-12, 13) / 4)
        elif k == 1:
            y = B(0.1 * rnd.randrange(-80, 80))
            x = B(struct.unpack("<f", struct.pack("<I", y))[0] * rnd.randrange(-1000, 1000))
            x = max(0, x + rnd.choice([-1, 0, 0, 1])) & 0xFFFFFFFF
        elif k == 2:
            x, y = B(rnd.uniform(-1000, 1000)), B(rnd.uniform(-10, 10))
        elif k == 3:
            x = some()
            y = (x & 0x7FFFFFFF) - (rnd.randrange(-4, 16) << 23) + rnd.randrange(-1 << 22, 1 << 22)
            if not 0 <= y < 0x7F800000:
                continue
            y |= rnd.randrange(2) << 31
        else:
            x, y = some(), rnd.choice([0, 0x80000000, some()])
        ops.append("rem %d %d" % (x, y))
    c.validate(exe, "F32Trace", blocks(ops), label="remainders")
