"""C05: fixed point conversions and text."""
import random
import struct
from fpgen import EDGE, M, rraw, pairs_lines, one_lines, blocks_of, chunks
from vlib import f32, hx


def run(c):
    c.model_check("FP16Alg")
    exe = c.build("fp16")
    rnd = random.Random(c.seed)
    n = 150000 if c.thorough else 24000
    lines = ["const"]
    xs = list(EDGE) + [rraw(rnd) for _ in range(n)]
    xs += [k * 65536 + d for k in (-32767, -300, -2, -1, 0, 1, 2, 300, 32767) for d in (0, 1, 32767, 32768, 32769, 65535) if abs(k * 65536 + d) <= M]
    for f in ("abs", "floor", "ceil", "round", "toint", "todouble", "tofloat"):
        lines += one_lines("un " + f, xs)
    ints = [-32768, -32767, -1, 0, 1, 32766, 32767] + [rnd.randint(-32768, 32767) for _ in range(400)]
    lines += one_lines("from fromint", ints)
    fl = []
    for _ in range(n):
        r = rraw(rnd)
        k = rnd.random()
        if k < 0.5:
            v = f32(r / 65536.0)                       # representable, or its neighbour
        elif k < 0.7:
            v = f32((r + rnd.choice([0.5, -0.5, 0.25, 0.49])) / 65536.0)
        else:
            v = f32(rnd.uniform(-1, 1) * 2.0 ** rnd.randint(-20, 15))
        if abs(v) < 32767.99:
            fl.append(v)
    for ch in chunks(fl, 60):
        lines.append("from fromfloat " + " ".join(hx(v) for v in ch))
    db = []
    for _ in range(n):
        r = rraw(rnd)
        k = rnd.random()
        v = (r + (0 if k < 0.3 else rnd.choice([0.5, -0.5, 0.49999, 0.50001, -0.25]) if k < 0.7 else rnd.uniform(-0.5, 0.5))) / 65536.0
        if abs(v) * 65536 < M:
            db.append(v)
    for ch in chunks(db, 60):
        lines.append("from fromdouble " + " ".join(v.hex() for v in ch))
    tx = [(x, d) for x in EDGE + [-2147483648] for d in range(-1, 8)]
    tx += [(rraw(rnd), rnd.randint(-1, 7)) for _ in range(n)]
    # fractions that round up into the integer part, and decimal ties
    tx += [(rnd.randint(0, 32766) * 65536 + 65535 - rnd.randint(0, 400), rnd.randint(0, 5)) for _ in range(n // 8)]
    tx += [(rnd.choice([1, -1]) * (rnd.randint(0, 99) * 65536 + rnd.choice([32768, 16384, 8192, 4096, 2048, 49152])), rnd.randint(0, 5)) for _ in range(n // 8)]
    tx += [(k * 65536 + rnd.randint(0, 65535), rnd.randint(0, 5)) for k in (9, 10, 99, 100, 999, 1000, 9999, 10000, 32767) for _ in range(6)]
    lines += pairs_lines("text", tx, 30)
    c.validate(exe, "FP16Trace", blocks_of(lines))
    c.assumptions.append("conversions from int/float/double are claimed for values inside the Q16.16 range")
