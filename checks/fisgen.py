"""Scripts for the fuzzy inference driver."""
import random
from vlib import hx, f32

BEGIN, END, AND, OR, THEN = -128, -127, -126, -125, -124


def tokens(rules):
    """rules: list of (ants, conns, cons); ants/cons: list of (who, mf, neg)"""
    t = [BEGIN]
    for ants, conns, cons in rules:
        for k, (w, m, n) in enumerate(ants):
            t += [w, -(m + 1) if n else m + 1]
            t.append(conns[k] if k < len(conns) else THEN)
        for k, (w, m, n) in enumerate(cons):
            if k:
                t.append(AND)
            t += [w, -(m + 1) if n else m + 1]
    return t + [END]


def new(kind, typ, ni, no, nmi, nmo, nr, tok, nullw=0, nullin=0, op="new"):
    return "%s %s %d %d %d %d %d %d %d %d %s" % (op, kind, typ, ni, no, nmi, nmo, nr, nullw, nullin, " ".join(map(str, tok)))


def grid(rnd, lo, hi):
    """a float in [lo,hi], often a 'nice' one so that edges are hit"""
    r = rnd.random()
    if r < 0.6:
        return lo + (hi - lo) * rnd.randrange(0, 17) / 16.0
    return f32(rnd.uniform(lo, hi))


def shape(rnd, s, lo, hi):
    """parameters of shape s, and the abscissas at which it may do something special"""
    g = lambda: grid(rnd, lo, hi)
    w = (hi - lo)
    width = lambda: w * rnd.choice([0.05, 0.125, 0.25, 0.5, 1.0, rnd.uniform(0.03, 1)])
    slope = lambda: rnd.choice([-1, 1]) * rnd.choice([1, 2, 5, 20, rnd.uniform(0.5, 30)]) / w
    if s in (-1, 0, 19):
        return [rnd.choice([0, 0.25, 0.5, 0.75, 1, rnd.random()])]
    if s == 1:
        p = sorted([g(), g(), g()])
        if rnd.random() < 0.3:
            k = rnd.randrange(2)
            p[k] = p[k + 1]
        return p if p[0] < p[2] else [lo, (lo + hi) / 2, hi]
    if s == 2:
        p = sorted([g(), g(), g(), g()])
        if rnd.random() < 0.35:
            k = rnd.choice([0, 2])
            p[k] = p[k + 1] if rnd.random() < 0.5 else p[k]
            p[k + 1] = p[k]
        p.sort()
        return p if p[0] < p[3] else [lo, (3 * lo + hi) / 4, (lo + 3 * hi) / 4, hi]
    if s == 3:
        return [width(), rnd.choice([1, 2, 0.5, 3, 4.5]), g()]
    if s == 4:
        return [width(), g()]
    if s == 5:
        a, b = g(), g()
        if rnd.random() < 0.8 and a > b:
            a, b = b, a
        return [width(), a, width(), b]
    if s in (6, 24):
        return [slope(), g()]
    if s in (7, 8):
        return [slope(), g(), slope(), g()]
    if s == 9:
        p = sorted([g(), g(), g(), g()])
        if not (p[0] < p[1] and p[2] < p[3]):
            p = [lo, lo + w * 0.25, lo + w * 0.5, hi]
        return p
    if s in (10, 11, 25, 26):
        p = sorted([g(), g()])
        return p if p[0] < p[1] else [lo, hi]
    if s == 12:
        return [g()]
    if s in (13, 23):
        a, b = g(), g()
        while a == b:
            a, b = g(), lo + (hi - lo) * rnd.randrange(0, 17) / 16.0
        return [a, b]
    if s == 14:
        return [width(), g()]
    if s in (15, 16):
        p = sorted([g(), g()])
        if rnd.random() < 0.1:
            p[0] = p[1]
        elif rnd.random() < 0.05:
            p.reverse()
        return p
    if s == 17:
        return sorted([g(), g()])
    if s == 18:
        return [g(), width()]
    if s in (21, 22, 27):
        return [g(), g()]
    raise ValueError(s)


INSHAPES = list(range(1, 19))


def interesting(s, p, lo, hi):
    """where the shape bends"""
    if s == 3:
        c = [p[2], p[2] - p[0], p[2] + p[0]]
    elif s in (4, 14, 6):
        c = [p[1]]
    elif s == 5:
        c = [p[1], p[3], (p[1] + p[3]) / 2]
    elif s in (7, 8):
        c = [p[1], p[3]]
    elif s == 18:
        c = [p[0], p[0] - p[1] / 2, p[0] + p[1] / 2]
    elif s in (10, 11):
        c = [p[0], p[1], (p[0] + p[1]) / 2]
    else:
        c = list(p)
    return c


def member_block(rnd, nmf, npts):
    """input sets observed through the rule strengths: rule k is IF x IS set k (or IS NOT)"""
    lo = rnd.choice([0, -1, -5, 2, -100, rnd.uniform(-3, 3)])
    hi = lo + rnd.choice([1, 2, 10, 100, rnd.uniform(0.5, 20)])
    lo, hi = f32(lo), f32(hi)
    rules = [([(0, k, rnd.random() < 0.25)], [], [(0, 0, False)]) for k in range(nmf)]
    b = [new("i", 1, 1, 1, nmf, 1, nmf, tokens(rules)), "in 0 %s %s" % (hx(lo), hx(hi)), "out 0 -10 10", "omf 0 0 19 - 0.5"]
    pts = [lo, hi]
    for k in range(nmf):
        s = rnd.choice(INSHAPES)
        p = [f32(v) for v in shape(rnd, s, lo, hi)]
        h = rnd.choice(["-", "-", "-", "0.5", "1", "0", "2", "-1", "0.3"])
        b.append("imf 0 %d %d %s %s" % (k, s, h, " ".join(hx(v) for v in p)))
        pts += interesting(s, p, lo, hi)
    for x in [rnd.choice(pts) for _ in range(npts)] + [rnd.uniform(lo, hi) for _ in range(npts)] + [lo - 1, hi + 5]:
        b += ["set 0 " + hx(x), "fuz", "inf"]
        if rnd.random() < 0.1:                  # the same input after one of the sets was replaced
            s = rnd.choice(INSHAPES)
            b += ["imf 0 %d %d - %s" % (rnd.randrange(nmf), s, " ".join(hx(f32(v)) for v in shape(rnd, s, lo, hi))), "fuz", "inf"]
    return b


def tsuk_block(rnd, n):
    lo = f32(rnd.choice([0, -1, -5, 2, rnd.uniform(-3, 3)]))
    hi = f32(lo + rnd.choice([1, 2, 10, rnd.uniform(0.5, 20)]))
    two = rnd.random() < 0.4
    nmo = 2 if two else 1
    rules = [([(0, 0, False)], [], [(0, 0, False)])]
    if two:
        rules.append(([(0, 0, True)], [], [(0, 1, False)]))
    b = [new("i", 2, 1, 1, 1, nmo, len(rules), tokens(rules)), "in 0 0 1", "out 0 %s %s" % (hx(lo), hx(hi)), "imf 0 0 15 - 0 1"]
    for k in range(nmo):
        s = rnd.choice([21, 22, 23, 24, 25, 26, 27, 0, -1])
        b.append("omf 0 %d %d %s %s" % (k, s, rnd.choice(["-", "0.5"]), " ".join(hx(v) for v in shape(rnd, s, lo, hi))))
    for _ in range(n):
        x = rnd.choice([0, 1, 0.5, 0.25, 0.75, 0.01, 0.99, rnd.random(), rnd.random(), rnd.random()])
        b += ["set 0 " + hx(x), "fuz", "inf", "def"]
    return b


def rand_rules(rnd, nr, ni, no, nmi, nmo, maxants=4, negcons=True, sug=False):
    rs = []
    for _ in range(nr):
        n = rnd.choice([1, 2, 2, 3, maxants])
        ants = [(rnd.randrange(ni), rnd.randrange(nmi), rnd.random() < 0.3) for _ in range(n)]
        conns = [rnd.choice([AND, OR]) for _ in range(n - 1)]
        outs = [rnd.randrange(no)] if no == 1 or rnd.random() < 0.6 else rnd.sample(range(no), rnd.randrange(1, no + 1))
        cons = [(o, rnd.randrange(nmo), negcons and not sug and rnd.random() < 0.2) for o in outs]
        rs.append((ants, conns, cons))
    return rs


def params(rnd):
    r = []
    for _ in range(rnd.randrange(0, 6)):
        r.append("par %d %d" % (rnd.randrange(0, 5), rnd.randrange(0, 5)))
    return r


def rule_block(rnd, runs, wrap=False):
    b = rule_part(rnd, runs, wrap, "new")
    if not wrap and rnd.random() < 0.15:
        b += rule_part(rnd, runs, wrap, "setup")     # the same instance, configured anew
    return b


def rule_part(rnd, runs, wrap, op, big=False):
    """inference: degrees injected exactly through constant sets"""
    typ = 1
    ni, no, nmi, nmo, nr = (2, 2, 4, 4, 3) if wrap else (rnd.randrange(1, 4), rnd.randrange(1, 4), rnd.randrange(1, 6), rnd.randrange(1, 5), rnd.randrange(1, 7))
    if big:
        ni, no, nmi, nmo, nr = rnd.choice([3, 100, 120]), rnd.choice([2, 9]), rnd.choice([5, 120]), rnd.choice([3, 90]), rnd.choice([60, 257, 300])
    rules = rand_rules(rnd, nr, ni, no, nmi, nmo, maxants=3 if wrap else rnd.choice([4, 40]) if big else 6, sug=True)
    tok = tokens(rules)
    decl = nr
    r = 1 if big else rnd.random()
    if not wrap and r < 0.08:
        decl = nr + rnd.choice([-1, 1]) if nr > 1 else nr + 1
    elif not wrap and r < 0.12:
        tok[1] = rnd.choice([-1, ni, ni + 3])
    elif not wrap and r < 0.15:
        k = tok.index(THEN)
        tok[k] = rnd.choice([5, -123, 0])
    elif not wrap and r < 0.17:
        tok[0] = rnd.choice([0, -127 + 5])
    b = []
    if not wrap and op == "new" and rnd.random() < 0.1:
        b.append(new("i", 1, ni, no, nmi, nmo, decl, tok, nullw=rnd.choice([0, 1]), nullin=1) if rnd.random() < 0.5 else new("i", 1, ni, no, nmi, nmo, decl, tok, nullw=1))
        b += ["fuz", "inf", "def", "set 0 1", "get 0", "in 0 0 1", "out 0 0 1", "imf 0 0 0 - 1", "omf 0 0 19 - 1", "sel 0", "put 1"]
    b.append(new("w" if wrap else "i", typ, ni, no, nmi, nmo, decl, tok, op="setup" if b else op))
    if rnd.random() < 0.3:
        b.append("put 0.5")
    for k in range(ni):
        b.append("in %d 0 1" % k)
    for k in range(no):
        b.append("out %d -100 100" % k)
    for k in range(nmo):
        b.append("omf %d %d %d - %s" % (rnd.randrange(no), k, 19, hx(rnd.randrange(-8, 9))))
    b += params(rnd)
    if rnd.random() < 0.4 and not wrap:
        b.append("weights " + " ".join(hx(rnd.choice([0, 0.25, 0.5, 1, 1, 1.5, -1, rnd.random()])) for _ in range(decl)))
    elif rnd.random() < 0.3 and wrap:
        b.append("weights " + " ".join(hx(rnd.choice([0, 0.5, 1, 2, -1])) for _ in range(decl)))
    weighed = b[-1].startswith("weights")
    bad = tok != tokens(rules) or decl != nr
    for _ in range(runs):
        for k in range(nmi):
            if rnd.random() < 0.95:
                sh = rnd.choice([0, -1])
                h = rnd.choice(["-", "-", "0.5"])
                v = rnd.choice([0, 0.25, 0.5, 0.75, 1, 1.5, -0.5]) if wrap or rnd.random() < 0.5 else rnd.random()
                b.append("imf %d %d %d %s %s" % (rnd.randrange(ni), k, sh, h, hx(v)))
        b += ["fuz", "inf"] + ([] if bad else ["def"])
        if weighed and rnd.random() < 0.7:       # the same array, other contents
            b += ["reweigh " + " ".join(hx(rnd.choice([0, 0.25, 0.5, 1, 1, 1.5, 3, -1, rnd.random()])) for _ in range(decl)), "inf"] + ([] if bad else ["def"])
        if rnd.random() < 0.3:
            b += params(rnd)
        if rnd.random() < 0.1:
            b.append("sel %d" % rnd.randrange(ni))
        if rnd.random() < 0.1:
            b += ["in %d 0 1" % ni, "in -1 0 1", "imf %d 0 0 - 1" % ni, "imf 0 %d 0 - 1" % nmi, "imf -1 0 0 - 1", "omf 0 %d 19 - 1" % nmo, "omf %d 0 19 - 1" % no,
                  "set %d 1" % ni, "set -1 1", "get %d" % no, "get 0", "out %d 0 1" % no, "idx 0", "idx %d" % no, "idx -1", "weights"]
    return b


def out_block(rnd, runs, typ, wrap=False):
    b = out_part(rnd, runs, typ, wrap, "new")
    if not wrap and rnd.random() < 0.25:
        b += out_part(rnd, max(1, runs // 2), rnd.randrange(3), wrap, "setup", plain=True)     # the same instance, another system
    return b


def recover_block(rnd):
    """inference over a broken rule base, then a sound one in the same instance"""
    good = tokens(rand_rules(rnd, 2, 2, 1, 3, 2, sug=True))
    ants = [(k % 2, k, False) for k in range(3)]
    tok = tokens([(ants, [rnd.choice([AND, OR]), rnd.choice([AND, OR])], [(0, 0, False)])])
    at = rnd.choice([6, 9, 4, 7])
    tok[at] = rnd.choice([5, -123, 9, 0]) if at in (6, 9) else rnd.choice([-1, 2, 7])
    b = []
    for op, t, n in (("new", tok, 1), ("setup", good, 2), ("setup", tok, 1), ("setup", good, 2)):
        b += [new("i", 1, 2, 1, 3, 2, n, t, op=op), "in 0 0 1", "in 1 0 1", "out 0 -100 100", "omf 0 0 19 - 3", "omf 0 1 19 - -7"]
        b += ["imf %d %d 0 - %s" % (k % 2, k, hx(rnd.choice([0.25, 0.5, 0.75]))) for k in range(3)]
        b += ["fuz", "inf"] + (["def", "inf", "def"] if n == 2 else [])
    return b


def plateau_block(rnd, runs):
    """Mamdani regions with several plateaus, equal or not, apart or touching"""
    n = rnd.choice([2, 3, 4])
    lo = f32(rnd.choice([0, -4, 1.5, rnd.uniform(-9, 9)]))
    hi = f32(lo + rnd.choice([1, 8, rnd.uniform(1, 30)]))
    rules = [([(0, k, False)], [], [(0, k, False)]) for k in range(n)]
    rnd.shuffle(rules)
    b = [new("i", 0, 1, 1, n, n, n, tokens(rules)), "in 0 0 1", "out 0 %s %s" % (hx(lo), hx(hi)), "store 0 100 0"]
    for k in range(n):
        a = lo + (hi - lo) * (k + rnd.uniform(0, 0.2)) / n
        e = lo + (hi - lo) * (k + rnd.uniform(0.6, 1)) / n
        s = rnd.choice([17, 2, 2, 1])
        q = {17: [a, e], 2: [a, a + (e - a) * 0.2, a + (e - a) * 0.8, e], 1: [a, (a + e) / 2, e]}[s]
        b.append("omf 0 %d %d - %s" % (k, s, " ".join(hx(f32(v)) for v in q)))
    b.append("par 0 %d" % rnd.randrange(2))
    for _ in range(runs):
        for k in range(n):
            b.append("imf 0 %d 0 - %s" % (k, hx(rnd.choice([0.5, 0.5, 0.5, 0.25, 0.75, 0, 1]))))
        b += ["set 0 0.5", "method %d" % rnd.choice([2, 2, 2, 3, 4, 1, 0]), "fuz", "inf", "def"]
    return b


def out_part(rnd, runs, typ, wrap, op, plain=False):
    """whole systems"""
    ni, no, nmi, nmo, nr = (2, 2, 4, 4, 3) if wrap else (rnd.randrange(1, 3), rnd.randrange(1, 4), rnd.randrange(1, 4), rnd.randrange(1, 4), rnd.randrange(1, 4))
    rules = rand_rules(rnd, nr, ni, no, nmi, nmo, maxants=2, sug=typ != 0)
    b = [new("w" if wrap else "i", typ, ni, no, nmi, nmo, nr, tokens(rules), op=op)]
    ranges = []
    for k in range(ni):
        b.append("in %d -2 2" % k)
    for k in range(no):
        lo = f32(rnd.choice([0, -1, -5, 2, rnd.uniform(-3, 3)]))
        hi = f32(lo + rnd.choice([1, 2, 10, 30, rnd.uniform(0.5, 20)]))
        ranges.append((lo, hi))
        b.append("out %d %s %s" % (k, hx(lo), hx(hi)))
    def inset(k):
        if wrap:       # exact degrees, as the strengths can not be seen
            b.append(rnd.choice(["imf %d %d 0 - %s" % (rnd.randrange(ni), k, hx(rnd.choice([0, 0.25, 0.5, 1]))),
                                 "imf %d %d %d - -2 2" % (rnd.randrange(ni), k, rnd.choice([15, 16])), "imf %d %d %d - -2 2" % (rnd.randrange(ni), k, rnd.choice([15, 16]))]))
        else:
            s = rnd.choice(INSHAPES)
            b.append("imf %d %d %d %s %s" % (rnd.randrange(ni), k, s, rnd.choice(["-", "0.75"]), " ".join(hx(v) for v in shape(rnd, s, -2, 2))))

    def outset(k):
        o = rnd.randrange(no)
        lo, hi = ranges[o]
        if typ == 0:
            s = rnd.choice([1, 2, 4, 10, 11, 15, 16, -1] if wrap else INSHAPES + [1, 2, 0, -1])
            pp = shape(rnd, s, lo, hi)
        elif typ == 1:
            s = rnd.choice([19, 20, 19, 20, -1])
            pp = [rnd.choice([0, 1, -1, 2, rnd.uniform(-3, 3)]) for _ in range(ni + 1 if s == 20 else 1)]
        else:
            s = rnd.choice([21, 22, 23, 24, 25, 26, 27, -1])
            pp = shape(rnd, s, lo, hi)
        b.append("omf %d %d %d %s %s" % (o, k, s, rnd.choice(["-", "-", "0.5"]), " ".join(hx(v) for v in pp)))
    for k in range(nmi):
        inset(k)
    for k in range(nmo):
        outset(k)
    if not wrap and typ == 0:
        b.append("store %d 99 0" % rnd.randrange(no))
        b.append("store %d 100 1" % rnd.randrange(no))
        for k in range(no):
            if rnd.random() < 0.9:
                b.append("store %d %d 0" % (k, rnd.choice([100, 100, 120])))
    for run in range(runs):
        if run and rnd.random() < 0.25:         # a running system is changed: sets, ranges
            r = rnd.random()
            if r < 0.35:
                inset(rnd.randrange(nmi))
            elif r < 0.65:
                outset(rnd.randrange(nmo))
            elif r < 0.8:
                b.append("in %d %s" % (rnd.randrange(ni), rnd.choice(["-2 2", "-1 1", "0 1", "-4 4"])))
            else:
                k = rnd.randrange(no)
                lo = f32(rnd.choice([0, -1, -5, 2, rnd.uniform(-3, 3)]))
                ranges[k] = (lo, f32(lo + rnd.choice([1, 2, 10, 30, rnd.uniform(0.5, 20)])))
                b.append("out %d %s %s" % (k, hx(ranges[k][0]), hx(ranges[k][1])))
                for q in range(nmo):
                    outset(q)
        b += params(rnd) if not plain and (not wrap or typ == 0) else []
        if not plain and rnd.random() < 0.9:
            b.append("method %d" % rnd.choice([0, 1, 2, 3, 4] if typ == 0 else [5, 6, 6, rnd.randrange(0, 7)]))
        if not wrap and rnd.random() < 0.2:
            b.append("weights " + " ".join(hx(rnd.choice([0, 0.5, 1, 1.5, rnd.random()])) for _ in range(nr)))
        for k in range(ni if not run or rnd.random() < 0.7 else 0):
            x = rnd.choice([rnd.uniform(-2.5, 2.5) if not wrap else 3.0, rnd.randrange(-8, 9) / 4.0, rnd.randrange(-8, 9) / 4.0])
            if rnd.random() < 0.5:
                b.append("set %d %s" % (k, hx(x)))
            else:
                b += ["sel %d" % k, "put " + hx(x) if rnd.random() < 0.7 else "puti %d" % rnd.randrange(-2, 3)]
        b += ["fuz", "inf", "def"]
        if rnd.random() < 0.2:
            b += ["idx %d" % k for k in range(no)] + ["idx %d" % no, "idx -1", "sel %d" % ni, "put 0.5", "sel 7", "sel -1", "put 0.5", "puti 1"] + ["idx %d" % k for k in range(no)]
            b += ["fuz", "inf", "def"]
        if rnd.random() < 0.1 and not wrap:
            b += ["set 0 " + hx(rnd.uniform(-2, 2)), "def"]
    return b


def many(rnd, block, n):
    """the same inference more often than a 16 bit counter can count, before the inputs change"""
    out, did = [], set()
    for l in block:
        if l in ("fuz", "inf", "def") and l not in did:
            did.add(l)
            l = "hold %d %s" % (n - rnd.randint(0, 3), l)
        elif l.split()[0] in ("new", "setup") and len(did) == 3:
            did = set()
        out.append(l)
    return out
