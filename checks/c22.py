"""C22: algorithms on raw arrays."""
import random

OPS = ["sort", "reverse", "rotate", "swap", "fill", "find", "bsearch", "replace", "replace_own", "for_each", "any_of", "all_of", "count_if", "find_if", "replace_if"]


def line(rnd, op, ty, n, a, f=None, l=None, arg=None):
    """f, l None: the defaults of the function"""
    lo, hi = min(a), max(a)
    key = rnd.choice(a + [lo - 1, hi + 1, rnd.randint(lo, hi)])
    if arg is None:
        if op == "sort":
            arg = rnd.randrange(4)
        elif op == "rotate":
            arg = rnd.choice([1, -1, n, -n, 2 * n, -2 * n, n - 1, 1 - n, rnd.randint(-3 * n, 3 * n), rnd.randint(-2**31, 2**31 - 1), -2**31, 2**31 - 1])
            f = l = None
        elif op == "swap":
            f = l = None
            arg = "%d %d" % (rnd.randrange(n), rnd.randrange(n))
        elif op in ("fill", "find", "bsearch"):
            arg = key
        elif op == "replace":
            arg = "%d %d" % (key, rnd.choice(a + [hi + 3, key]))
        elif op == "replace_own":        # the value to be replaced is that of an element of the array itself
            arg = "%d %d" % (rnd.randrange(n), rnd.choice(a + [hi + 3]))
        elif op in ("reverse", "for_each"):
            arg = ""
        else:
            arg = "%d %d" % (rnd.randrange(4), key)
            if op == "replace_if":
                arg += " %d" % rnd.choice(a + [hi + 3, lo - 2])
    return "%s %d %d %d %d %s %s" % (op, ty, n, -1 if f is None else f, -1 if l is None else l, " ".join(map(str, a)), arg)


def deep_right(n):
    """every partition of the last element's quick sort leaves two elements on the left: the pending ranges pile up"""
    hi = n
    r = list(range(n - n % 3, n))
    for _ in range(n // 3):
        lo = hi = (n - n % 3 - 3) if not _ else hi - 3
        r = [lo, lo + 1] + (r[-1:] + r[:-1] if r else []) + [lo + 2]
    return r


def deep_left(n):
    r = []
    while len(r) + 3 <= n:
        k = len(r)
        r = r + [k + 1, k + 2, k]
    return r + list(range(len(r), n))


def run(c):
    hist = c.generate("AlgoMC")
    exe = c.build("algorithm")
    rnd = random.Random(c.seed)
    t = c.thorough
    lines = [line(rnd, "sort", 2, 4, list(h["a"]), h["f"] - 1, h["l"] - 1, h["c"]) for h in hist]
    for h in hist:
        a, f, l = list(h["a"]), h["f"] - 1, h["l"] - 1
        if h["c"]:
            continue
        for op in OPS[1:]:
            b = a
            if op == "bsearch":
                b = a[:f] + sorted(a[f:l + 1]) + a[l + 1:]
            lines.append(line(rnd, op, rnd.randrange(3), 4, b, f, l))
    blocks = [["new"] + lines[k:k + 200] for k in range(0, len(lines), 200)]
    c.validate(exe, "AlgoTrace", blocks, label="all arrays and ranges of the model, every operation")
    lines = []
    for _ in range(60000 if t else 5000):
        n = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 33] + ([100] if t else []))
        a = [rnd.randint(0, rnd.choice([1, 3, 10, 1000])) for _ in range(n)]
        if rnd.random() < 0.2:
            a.sort(reverse=rnd.random() < 0.5)
        f = l = None
        if rnd.random() < 0.6:
            f = rnd.randrange(n)
            l = rnd.randrange(f, n)
        op = rnd.choice(OPS + ["sort", "rotate"])
        if op == "bsearch":
            g, h = (f, l) if f is not None else (0, n - 1)
            a = a[:g] + sorted(a[g:h + 1]) + a[h + 1:]
        lines.append(line(rnd, op, rnd.randrange(3), n, a, f, l))
    for n in (1, 2, 3, 5, 8):
        for k in range(-2 * n - 1, 2 * n + 2):
            lines.append(line(rnd, "rotate", 2, n, list(range(n)), arg=k))
    lines.append(line(rnd, "sort", 0, 100, [rnd.randint(0, 50) for _ in range(100)]))
    lines.append(line(rnd, "sort", 2, 100, list(range(100, 0, -1)), arg=2))
    for n in (6, 7, 8, 16, 33, 100, 257, 1000):      # as many pending ranges as there can be
        for a in (deep_right(n), deep_left(n), deep_right(n)[::-1], deep_left(n)[::-1], [-x for x in deep_right(n)], [-x for x in deep_left(n)], list(range(n)), [5] * n):
            assert len(a) == n
            lines += [line(rnd, "sort", ty, n, a, arg=k) for ty, k in ((0, 0), (2, 1))]
    blocks = [["new"] + lines[k:k + 200] for k in range(0, len(lines), 200)]
    c.validate(exe, "AlgoTrace", blocks, label="random arrays, ranges, element types and arguments")
    # large arrays: indexes beyond 8 and 16 bits
    lines = []
    for n in (257, 1000, 66000):
        for op in OPS * (4 if t else 1):
            for f, l in ((None, None), (rnd.randrange(n // 8), n - 1 - rnd.randrange(n // 8)), (n - 3, n - 1)):
                a = [rnd.randint(0, 30 if n > 1000 else 200) for _ in range(n)]
                if op == "bsearch":
                    g, h = (f, l) if f is not None else (0, n - 1)
                    a = a[:g] + sorted(a[g:h + 1]) + a[h + 1:]
                if op in ("find", "find_if") and f is not None:       # the only match close to the end
                    a = [0] * (l - 1) + [7, 7] + [0] * (n - l - 1)
                    lines.append(line(rnd, op, rnd.choice([0, 2]), n, a, f, l, "7" if op == "find" else "1 7"))
                elif n < 2000 or f != n - 3:
                    lines.append(line(rnd, op, 0 if n > 1000 else rnd.randrange(3), n, a, f, l))
    blocks = [["new", x] for x in lines]
    c.validate(exe, "AlgoTrace", blocks, label="large arrays")
