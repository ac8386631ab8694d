"""C23: matrices."""
import random
from vlib import hx

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (4, 2), (5, 5), (2, 5), (6, 1)]
LARGE = [(8, 8), (7, 9), (9, 4), (17, 17)]
REN = {"mulS": ["mulS v 2"], "subS": ["subS v 1"], "rsubS": ["rsubS v 1"], "mul": ["loadST", "mulST", "storeA"], "mulAssign": ["loadST", "mulAssignST", "storeA"],
       "inv": ["loadTA", "inv", "storeB"], "trans": ["trans", "loadB"]}


def kappa_ok(v, n):
    """rough check that the matrix is not near singular (Gauss-Jordan on doubles)"""
    a = [v[i * n:(i + 1) * n] + [float(i == j) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p][i]) < 1e-9:
            return False
        a[i], a[p] = a[p], a[i]
        d = a[i][i]
        a[i] = [x / d for x in a[i]]
        for r in range(n):
            if r != i:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    nrm = max(sum(abs(x) for x in v[i * n:(i + 1) * n]) for i in range(n))
    ninv = max(sum(abs(x) for x in a[i][n:]) for i in range(n))
    return nrm * ninv < 500


def run(c):
    hist = c.generate("MatMC")
    exe = c.build("mat")
    rnd = random.Random(c.seed)
    t = c.thorough
    blocks = []
    for h in (hist if t else rnd.sample(hist, min(len(hist), 1200))):
        b = ["new 2 2", "setA " + " ".join(map(hx, map(int, h["a"]))), "setB " + " ".join(map(hx, map(int, h["b"])))]
        for op in h["h"]:
            b += REN.get(op, [op])
        b.append("norm")
        blocks.append(b)
    c.validate(exe, "MatTrace", blocks, label="operation sequences of the model on 2x2")
    blocks = []

    def val(k=None):
        k = rnd.randrange(5) if k is None else k
        return rnd.randrange(-4, 5) if k < 2 else rnd.uniform(-3, 3) if k < 4 else rnd.uniform(-1, 1) * 10 ** rnd.randrange(-3, 4)
    many = 4000 if t else 500
    for q in range(many + many // 12):
        n, m = rnd.choice(SHAPES) if q < many else LARGE[q % len(LARGE)]
        b = ["new %d %d" % (n, m)]

        def mk(k):
            z = rnd.choice([0, 2, None])
            return " ".join(hx(val(z)) for _ in range(k))
        b += ["setA " + mk(n * m), "setB " + mk(n * m)]

        def setT():
            while True:
                kind = rnd.randrange(4)
                if kind == 0:       # permuted diagonal: every pivot order occurs
                    p = list(range(n))
                    rnd.shuffle(p)
                    v = [rnd.choice([1, 2, -3]) if p[i] == j else 0 for i in range(n) for j in range(n)]
                elif kind == 1:     # tiny pivots on the diagonal
                    v = [rnd.choice([1e-6, 0, 1e-4]) if i == j else rnd.uniform(-2, 2) for i in range(n) for j in range(n)]
                    if n == 1:
                        continue
                elif kind == 2:
                    v = [rnd.randrange(-3, 4) for _ in range(n * n)]
                else:
                    v = [rnd.uniform(-2, 2) for _ in range(n * n)]
                if kappa_ok([float(x) for x in v], n):
                    break
            b.append("setT " + " ".join(map(hx, v)))
        big = 0
        for _ in range(rnd.choice([6, 10, 14])):
            r = rnd.random()
            if r < 0.2:
                setT()
                b.append(rnd.choice(["inv", "inv", "invT"]))
                if rnd.random() < 0.3:
                    b.append("ST")
            elif r < 0.45:
                op = rnd.choice(["mulS", "rmulS", "divS", "addS", "raddS", "subS", "rsubS", "mulAssignS", "divAssignS", "addAssignS", "subAssignS"])
                if rnd.random() < 0.3 and "div" not in op:
                    b.append("%s e %d" % (op, rnd.randrange(2 * n * m + 9)))
                elif rnd.random() < 0.3 and op == "divAssignS":
                    k = rnd.choice([0, n * m - 1])
                    b += ["setIdx %d %s" % (k, hx(rnd.choice([2, -0.5, 3]))), "%s e %d" % (op, k)]
                else:
                    b.append("%s v %s" % (op, hx(rnd.choice([2, -1, 0.5, rnd.uniform(0.1, 3)]))))
            elif r < 0.6:
                b.append(rnd.choice(["setRC", "setIdx", "setBr"]) + " %d %s" % (rnd.randrange(2 * n * m + 9), hx(val())))
                b.append("get %d" % rnd.randrange(2 * n * m + 9))
            elif r < 0.66:
                b.append(rnd.choice(["id", "all"]) + " " + hx(val()))
            elif r < 0.7:
                b.append("setA " + mk(n * m))
            else:
                op = rnd.choice(["add", "addAssign", "addSelf", "sub", "subAssign", "subSelf", "neg", "preInc", "postInc", "preDec", "postDec", "trans", "mulAP", "mulPA", "mulSA", "mulST",
                                 "mulAssignAQ", "mulAssignST", "mulAssignSS", "idDef", "zero", "default", "copyCtor", "asg", "asgSelf", "ST", "norm", "norm", "show", "addAA", "subAA", "mulSS"])
                if op.startswith("mul"):
                    big += 1
                    if big > 5:
                        continue
                b.append(op)
        blocks.append(b)
    c.validate(exe, "MatTrace", blocks, label="random operation sequences, sixteen shapes")
