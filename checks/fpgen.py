"""operand generators shared by the fixed point checks"""
M = 2147483647
EDGE = [0, 1, -1, 2, -2, 3, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, -32767, -32768, -32769, -65535, -65536, -65537,
        98303, 98304, 98305, -98304, 131071, 131072, 131073, M, M - 1, -M, -M + 1, M - 32767, M - 32768, M - 65535, M - 65536, -M + 65535,
        1 << 23, (1 << 23) + 1, 1 << 24, (1 << 24) + 1, 1 << 30, (1 << 30) + 1, -(1 << 30), 11863283, -11863283, 46341 * 256, 181 * 65536]


def rraw(rnd):
    k = rnd.random()
    if k < 0.12:
        return rnd.choice(EDGE)
    if k < 0.2:
        v = rnd.choice(EDGE) + rnd.randint(-3, 3)
        return max(-M, min(M, v))
    b = rnd.randint(1, 31)
    v = rnd.getrandbits(b)
    if rnd.random() < 0.1:
        v = (1 << b) - 1 - rnd.getrandbits(max(1, b // 4))
    return max(-M, min(M, v if rnd.random() < 0.5 else -v))


def chunks(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


def pairs_lines(prefix, ps, n=40):
    return [prefix + " " + " ".join("%d %d" % p for p in c) for c in chunks(ps, n)]


def one_lines(prefix, xs, n=60):
    return [prefix + " " + " ".join(str(x) for x in c) for c in chunks(xs, n)]


def blocks_of(lines, per=12):
    return [["new"] + c for c in chunks(lines, per)]
