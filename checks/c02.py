"""C02: bit field."""
import random

FLT = [0x3F800000, 0x7F800000, 0xFF800000, 1, 0x80000001, 0x007FFFFF, 0x80000000, 0x00800000, 0x7FC12345]       # specials: subnormal, minus zero, infinite, no number


def run(c):
    c.model_check("BitFieldMC")
    rnd = random.Random(c.seed)
    exe = c.build("bitfield")
    blocks = [["new 4 0", "blank 0"], ["new 4 0", "blank 1"], ["new 4 0", "blank 2"]]
    pats = [0, 0xFFFFFFFF, 0xAAAAAAAA, 0x80000001]
    # every index and width of small fields
    for nbytes in (4, 8, 12):
        size = 8 * nbytes
        for bg in ((0, 255, 1000 + rnd.randrange(9999)) if c.thorough else (1000 + rnd.randrange(9999),)):
            for k in list(range(size)) + [size, size + 1, size + 31, size + 32, 5 * size, 2 ** 40]:
                b = ["new %d %d" % (nbytes, bg)]
                widths = range(0, 35) if (c.thorough or nbytes == 8) else sorted({0, 1, 2, 31, 32, 33} | {rnd.randrange(1, 33) for _ in range(8)})
                for w in widths:
                    b.append("wn %d %d %d" % (k, w, rnd.choice(pats + [rnd.getrandbits(32)] * 3)))
                    b.append("rn %d %d" % (k, w))
                    if rnd.random() < 0.5:
                        b.append("rn %d %d" % (max(0, k - rnd.randrange(33)), rnd.randrange(1, 33)))
                b += ["set %d" % k, "rd %d" % k, "clr %d" % k, "rd %d" % k, "tog %d" % k, "rd %d" % k, "tog %d" % k,
                      "wr %d 1" % k, "wr %d 0" % k, "wf %d %d" % (k, rnd.choice([0x3F800000, 0xC2F6E979, 0x7F800000, 1, 0x80000001, 0x007FFFFF, 0x80000000, 0x00800000, 0x7FC12345, 0xFF800000, rnd.getrandbits(31) & 0x7F7FFFFF, rnd.getrandbits(23)])), "rf %d" % k]
                blocks.append(b)
    # histories of mixed operations on larger fields
    for _ in range(120 if c.thorough else 24):
        nbytes = 4 * rnd.choice([1, 2, 3, 4, 5, 8])
        size = 8 * nbytes
        b = ["new %d %d" % (nbytes, rnd.choice([0, 255, rnd.randrange(256, 10 ** 6)]))]
        for _k in range(120):
            k = rnd.choice([rnd.randrange(size), rnd.randrange(size), size - 1, 0, 31, 32 % size, size + rnd.randrange(40)])
            op = rnd.choice(["set", "clr", "tog", "rd", "wr", "wn", "rn", "wn", "rn", "wf", "rf", "setall", "clrall", "dump", "dump"])
            if rnd.random() < 0.02:         # the same object on another field
                nbytes = 4 * rnd.choice([1, 2, 3, 6])
                size = 8 * nbytes
                b.append("setup %d %d" % (nbytes, rnd.randrange(256, 10 ** 6)))
                continue
            if op in ("setall", "clrall"):
                if rnd.random() < 0.2:
                    b.append(op)
            elif op == "dump":
                n = rnd.choice([0, 1, nbytes - 1, nbytes, nbytes + 1, rnd.randrange(nbytes + 8)])
                b.append("dump %d" % n + (" null" if rnd.random() < 0.1 else ""))
            elif op == "wr":
                b.append("wr %d %d" % (k, rnd.randrange(2)))
            elif op == "wn":
                b.append("wn %d %d %d" % (k, rnd.choice([1, 8, 16, 31, 32, rnd.randrange(0, 34)]), rnd.getrandbits(32)))
            elif op == "rn":
                b.append("rn %d %d" % (k, rnd.choice([1, 8, 16, 31, 32, rnd.randrange(0, 34)])))
            elif op == "wf":
                b.append("wf %d %d" % (k, rnd.choice(FLT + [rnd.getrandbits(23), rnd.getrandbits(32) & 0xFF7FFFFF, rnd.getrandbits(32) & 0xFF7FFFFF])))
            else:
                b.append("%s %d" % (op, k))
        blocks.append(b)
    c.validate(exe, "BitFieldTrace", blocks)
    # large fields: indexes beyond 8, 16 bits
    blocks = []
    for nbytes in (32, 36, 64, 512, 8192, 8196) + ((16384,) if c.thorough else ()):
        size = 8 * nbytes
        b = ["new %d %d" % (nbytes, rnd.randrange(256, 10 ** 6))]
        for k in sorted({x for x in (0, 1, 31, 255, 256, 257, 511, 2047, 2048, 4095, 4096, 32767, 32768, 65535, 65536, 65537, size - 33, size - 2, size - 1, size, size + 1, rnd.randrange(size), rnd.randrange(size)) if x <= size + 1}):
            w = rnd.randrange(1, 33)
            b += ["wn %d %d %d" % (k, w, rnd.getrandbits(32)), "rn %d %d" % (k, rnd.choice([w, 32])), rnd.choice(["set %d", "clr %d", "wr %d 1"]) % k, "tog %d" % k, "rd %d" % k]
            if rnd.random() < 0.3:
                b += ["wf %d %d" % (k, rnd.choice(FLT + [rnd.getrandbits(32) & 0xFF7FFFFF] * 6)), "rf %d" % k]
        b += ["dump %d" % n for n in (0, 255, 256, nbytes // 2, nbytes, nbytes + 1)] + ["setall", "rn %d 32" % (size - 40), "clrall", "rd %d" % (size - 1)]
        blocks.append(b)
    c.validate(exe, "BitFieldTrace", blocks, label="large fields")
