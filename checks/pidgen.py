"""script generator for the PID controller"""
import math
import random
from vlib import hx

MCNEW = {"1": ["new 2 1 0 0.5"], "2": ["new 1 0.5 0.25 0.5"], "3": ["new 1 1 1 0.5", "dir bwd", "eps 0.5"]}
MCSET = {"1": ["sat -4 4", "beta 0.5", "weight 1 1"], "2": ["sat -4 4", "beta 0.5", "weight 1 1"], "3": ["sat -4 4", "beta 0.5", "weight 0.5 0"]}


def signal(rnd, n):
    """set point / process pairs"""
    mode = rnd.randrange(4)
    w = rnd.choice([1.0, 5.0, 10.0, -3.0, 0.0, 40.0])
    y = rnd.choice([0.0, w, rnd.uniform(-5, 5)])
    out = []
    lag = rnd.uniform(0.02, 0.3)
    for k in range(n):
        if mode == 0:
            y += lag * (w - y)
        elif mode == 1:
            y = rnd.uniform(-10, 10)
            if rnd.random() < 0.2:
                w = rnd.uniform(-10, 10)
        elif mode == 2:
            y = w * (1 - math.exp(-k * lag)) + rnd.gauss(0, 0.1)
        elif rnd.random() < 0.1:
            y = rnd.choice([w, w + 0.013, w - 0.9, 0.0])
        out.append((w, y))
    return out


def config(rnd, s, full):
    for _ in range(rnd.randint(0, 6)):
        s.append(setting(rnd, full))


def setting(rnd, full):
    k = rnd.randrange(13 if full else 8)
    u = rnd.uniform
    if k == 0:
        a = u(-50, 50)
        return "sat %s %s" % (hx(a), hx(a + rnd.choice([u(0.5, 100), u(0.5, 100), 0, -1])))
    if k == 1:
        return "beta %s" % hx(rnd.choice([0, 0.5, 0.9, 0.98, 1.0, -0.1, u(0, 0.99), float("nan")]))
    if k == 2:
        return "tau %s" % hx(rnd.choice([0, 0.1, 1, u(0.05, 3), -1]))
    if k == 3:
        return "weight %s %s" % (hx(rnd.choice([0, 1, u(0, 1), 2, -1])), hx(rnd.choice([0, 1, u(0, 1), 2, -1])))
    if k == 4:
        return "eps %s" % hx(rnd.choice([0.0, 0.1, 1.0, 0.01]))
    if k == 5:
        return "gains %s %s %s %d" % (hx(u(-4, 4)), hx(u(0, 2)), hx(u(0, 0.5)), rnd.randrange(2))
    if k == 6:
        return rnd.choice(["params %s %s %s" % (hx(u(0.2, 4)), hx(u(0.3, 5)), hx(u(0, 1))), "series"]) if rnd.random() < 0.7 else "gains 1 0.5 0"
    if k == 7:
        return "im " + rnd.choice(["rect", "trap", "simp", "quad"]) if rnd.random() < 0.5 else "dm " + rnd.choice(["two", "back", "forw"])
    if k == 8:
        return "mode " + rnd.choice(["man", "auto"])
    if k == 9:
        return "manual %s" % hx(u(-10, 10))
    if k == 10:
        return "extra %s %s" % (hx(rnd.choice([0, 1, u(0, 2)])), hx(rnd.choice([0, 1, u(0, 2)])))
    if k == 11:
        return "dir " + rnd.choice(["fwd", "bwd"])
    return rnd.choice(["mrac", "mrac %s %s" % (hx(u(0.01, 1)), hx(u(0.01, 1))), "unmrac", "mrac 0 1", "mrac 1 -1"])


def fix_series(s):
    """series needs non-zero kc and ki: set them just before"""
    out = []
    for l in s:
        if l == "raw series":
            out.append("series")
            continue
        if l == "series":
            out.append("gains %s %s %s" % (hx(1.5), hx(0.75), hx(0.3)))
        out.append(l)
    return out


def ctl(rnd, s, n):
    ym = rnd.uniform(-3, 3)
    for _ in range(n):
        ym += rnd.uniform(-1, 1)
        s.append("ctl %s %s %s" % (hx(rnd.uniform(1, 6)), hx(rnd.uniform(-4, 4)), hx(ym)))


def again(rnd):
    """everything changed, used, and set up again: back to the defaults, except the methods and the model reference"""
    u = rnd.uniform
    s = ["new %s %s %s %s" % (hx(u(0.5, 3)), hx(u(0, 1)), hx(u(0, 0.3)), hx(0.1)), "sat -60 60"]
    every = ["mode man", "manual %s" % hx(u(2, 9)), "dir bwd", "weight %s %s" % (hx(u(0, 0.7)), hx(u(0.3, 1))), "extra %s %s" % (hx(u(1.3, 2)), hx(u(0, 0.6))),
             "eps %s" % hx(u(0.5, 2)), "beta %s" % hx(u(0, 0.6)), "mrac %s %s" % (hx(u(0.2, 1)), hx(u(0.1, 1))), "im simp", "dm back", "sat %s %s" % (hx(u(-9, -3)), hx(u(3, 9)))]
    rnd.shuffle(every)
    s += every[:rnd.choice([1, 2, len(every)])]
    ctl(rnd, s, 5)
    s.append(rnd.choice(["setup %s %s %s %s %d" % (hx(u(0.5, 3)), hx(u(0, 1)), hx(u(0, 0.3)), hx(rnd.choice([0.1, 0.05])), rnd.randrange(2)), "reset"]))
    if rnd.random() < 0.7:
        s.append("sat -80 90")
    ctl(rnd, s, 5)
    s.append("mode man")
    ctl(rnd, s, 4)
    return s


def reference(rnd):
    """the model reference term switched on, off and on again, with changed parameters, while it matters"""
    u = rnd.uniform
    s = ["new %s %s %s %s" % (hx(u(0.1, 1)), hx(u(0, 0.5)), hx(u(0, 0.1)), hx(rnd.choice([0.1, 0.25]))), "sat -500 500"]
    for _ in range(4):
        s.append("mrac %s %s" % (hx(u(0.3, 3)), hx(u(0.05, 1))))
        ctl(rnd, s, rnd.choice([3, 6]))
        s += rnd.choice([[], ["unmrac"], ["unmrac"], ["reset"], ["mrac 1 0"], ["mrac 0 1"], ["mrac -1 1"], ["sat 0 5"]])
        ctl(rnd, s, rnd.choice([2, 4]))
    return s


def turns(rnd, full):
    """each setting, at its ordinary and its limiting values, turned in the middle of a run in which all the terms count and nothing saturates"""
    u = rnd.uniform
    every = ["beta 0", "beta 0.5", "beta %s" % hx(u(0, 0.99)), "beta 1", "beta -0.25", "tau 0", "tau 0.5", "tau %s" % hx(u(0.05, 3)), "tau -1",
             "weight 0 0", "weight 1 1", "weight 1 0", "weight 0 1", "weight %s %s" % (hx(u(0, 1)), hx(u(0, 1))), "weight 2 -1", "eps 0", "eps 0.5", "eps %s" % hx(u(0, 3)),
             "gains 0 0 0 0", "gains 0 0.5 0 1", "gains 2 0 0 0", "gains 0 0 0.25 1", "gains %s %s %s 0" % (hx(u(0.5, 3)), hx(u(0.1, 1)), hx(u(0, 0.3))),
             "params %s %s %s" % (hx(u(0.5, 3)), hx(u(0.5, 4)), hx(u(0, 0.3))), "params 1 2 0", "series", "im rect", "im trap", "im simp", "im quad", "dm two", "dm back", "dm forw",
             "sat -900 900", "sat -1 1", "sat 900 -900", "sat 5 5", "sat 2 8"]
    if full:
        every += ["mode man", "mode auto", "mode auto", "manual 0", "manual %s" % hx(u(-10, 10)), "extra 0 0", "extra 1 1", "extra 0 1", "extra 1 0", "extra %s %s" % (hx(u(0, 2)), hx(u(0, 2))),
                  "dir fwd", "dir bwd", "mrac 0.5 0.25", "mrac", "unmrac", "mrac 0 1", "mrac 1 0"]
    rnd.shuffle(every)
    blocks = []
    while every:
        s = ["new %s %s %s %s" % (hx(u(0.5, 3)), hx(u(0.1, 1)), hx(u(0.1, 0.5)), hx(rnd.choice([0.1, 0.25]))), "sat -1000 1000", "weight %s %s" % (hx(u(0.3, 1)), hx(u(0.3, 1))), "beta %s" % hx(u(0.2, 0.9))]
        ctl(rnd, s, 4)
        for _ in range(3):
            if every:
                s.append(every.pop())
                ctl(rnd, s, 3)
                if s[-4].startswith("sat"):
                    s.append("sat -1000 1000")
                    ctl(rnd, s, 2)
                if s[-4].startswith("gains 0") or s[-4].startswith("gains 2 0"):
                    s.append("gains 1 0.5 0.25 0")
                    ctl(rnd, s, 2)
        blocks.append(fix_series(s))
    return blocks


def slight(rnd, full):
    """settings at tiny and nearly limiting values, and turned by a little only"""
    u = rnd.uniform
    near = lambda v: v * (1 + rnd.choice([-1, 1]) * rnd.choice([0.01, 0.003]))
    kc, ki, kd, be, b, w, t = u(0.5, 3), u(0.3, 1), u(0.1, 0.5), u(0.3, 0.8), u(0.3, 0.9), u(0.3, 0.9), u(0.1, 1)
    turn = [["gains %s %s %s 0" % (hx(kc), hx(ki), hx(kd)), "gains %s %s %s 0" % (hx(near(kc)), hx(ki), hx(kd)), "gains %s %s %s 0" % (hx(kc), hx(near(ki)), hx(kd)), "gains %s %s %s 0" % (hx(kc), hx(ki), hx(near(kd)))],
            ["beta %s" % hx(v) for v in (be, near(be), 1e-7, 0.99999994, be)], ["weight %s %s" % (hx(x), hx(y)) for x, y in ((b, w), (near(b), w), (b, near(w)), (1e-7, w), (b, 1e-7), (0.99999994, 0.99999994))],
            ["eps %s" % hx(v) for v in (1e-30, 1e-7, 0.25, near(0.25), 0)], ["tau %s" % hx(v) for v in (t, near(t), 1e-6)],
            ["sat -1000 1000", "sat -1000.5 1000.25", "sat -3 3", "sat -3.0078125 3.0078125", "sat -1000 1000"]]
    if full:
        turn += [["mode man", "manual 5", "manual %s" % hx(near(5)), "manual 1e-7", "mode auto"], ["extra %s %s" % (hx(1), hx(0.5)), "extra %s %s" % (hx(near(1)), hx(0.5)), "extra 1e-7 1e-7"]]
    blocks = []
    for g in turn:
        s = ["new %s %s %s 0.25" % (hx(kc), hx(ki), hx(kd)), "sat -1000 1000", "weight %s %s" % (hx(b), hx(w)), "beta %s" % hx(be)]
        ctl(rnd, s, 3)
        for x in g:
            s.append(x)
            ctl(rnd, s, 3)
        blocks.append(s)
    return blocks


def odd(rnd):
    """samples that are no numbers, and a new start"""
    u = rnd.uniform
    bad = lambda: hx(rnd.choice([float("nan"), float("inf"), float("-inf")]))
    s = ["new %s %s %s 0.1" % (hx(u(0.5, 3)), hx(u(0.1, 1)), hx(u(0.1, 0.5))), "sat -1000 1000", "weight %s %s" % (hx(u(0.3, 1)), hx(u(0.3, 1)))]
    for _ in range(4):
        s += rnd.choice([[], [], ["mrac 0.5 0.25"], ["unmrac"], ["mode man", "manual 3"], ["mode auto"]])
        ctl(rnd, s, 3)
        s.append(rnd.choice(["ctl 1 %s 2", "ctl %s 1 2", "ctl 1 %s 2"]) % bad())
        ctl(rnd, s, rnd.randint(0, 3))
        s.append(rnd.choice(["reset", "reset", "setup %s %s %s 0.1" % (hx(u(0.5, 3)), hx(u(0.1, 1)), hx(u(0.1, 0.5)))]))
        ctl(rnd, s, 4)
        s += ["mode man"] if rnd.random() < 0.3 else []
        ctl(rnd, s, 3)
    return s


def run(c, full, quick, deep):
    rnd = random.Random(c.seed * 101 + full)
    hist = c.generate("PIDMC")
    exe = c.build("pid")
    blocks = []
    for h in (hist if c.thorough else hist[(0 if full else 1)::12]):
        blocks.append(MCNEW[h[0]] + MCSET[h[0]] + h[1:])
    c.validate(exe, "PIDTrace", blocks, label="behaviours of the model replayed")
    blocks = []
    for q in range(deep if c.thorough else quick):
        s = []
        if full and rnd.random() < 0.3:
            s.append("new 1 1 0 %s" % hx(rnd.choice([0.0, -0.1, float("nan")])))
            s += ["ctl 3 1 0", "reset", "sat 0 1", "gains 1 1 1", "mode man", "unmrac", "weight 1 1", "beta 0.5", "manual 1", "dir bwd", "extra 1 1", "eps 1", "tau 1", "mrac 1 1", "params 1 1 1", "raw series", "gains 1 1 1 1"]
        g = rnd.choice([(1, 0, 0), (2, 0.5, 0), (1.5, 0.3, 0.2), (rnd.uniform(0.1, 5), rnd.uniform(0, 2), rnd.uniform(0, 1)), (-2, 0.5, 0.1), (0, 1, 0), (0, 0, 1)])
        s.append("%s %s %s %s %s %d" % ("setup" if s else "new", hx(g[0]), hx(g[1]), hx(g[2]), hx(rnd.choice([0.1, 0.05, 0.5, 0.01])), rnd.randrange(2)))
        config(rnd, s, full)
        n = rnd.choice([8, 25, 50])
        ym = 0.0
        for w, y in signal(rnd, n):
            ym += 0.1 * (w - ym)
            s.append("ctl %s %s %s" % (hx(w), hx(y), hx(ym)))
            r = rnd.random()
            if r < (0.12 if full else 0.03):
                s.append(setting(rnd, full))
            elif r < (0.14 if full else 0.03):
                s.append("reset")
            elif full and r < 0.15:
                s.append("setup 1 1 0 %s" % hx(rnd.choice([0.0, 0.2, -1])))
        blocks.append(fix_series(s))
    c.validate(exe, "PIDTrace", blocks, label="random histories")
    c.validate(exe, "PIDTrace", [b for _ in range(24 if c.thorough else 6) for b in turns(rnd, full)], label="each setting turned in the middle of a run")
    c.validate(exe, "PIDTrace", [b for _ in range(8 if c.thorough else 2) for b in slight(rnd, full)], label="settings at their edges and turned by a little")
    if not full:        # long histories
        blocks = []
        for q in range(16 if c.thorough else 4):
            s = ["new %s %s %s %s" % (hx(rnd.uniform(0.5, 2)), hx(rnd.uniform(0.05, 0.5)), hx(rnd.uniform(0, 0.2)), hx(0.1)), "sat -40 40", "im " + ("rect", "trap", "simp", "quad")[q % 4]]
            for w, y in signal(rnd, 600):
                s.append("ctl %s %s 0" % (hx(w), hx(y)))
            blocks.append(s)
        for q in range(4):      # more steps than a 16 bit counter holds
            s = ["new %s %s %s %s" % (hx(rnd.uniform(0.5, 2)), hx(rnd.uniform(0.05, 0.5)), hx(rnd.uniform(0, 0.2)), hx(0.1)), "sat -40 40", "im " + ("rect", "trap", "simp", "quad")[q % 4], "beta 0.5"]
            s += ["ctl 4 %s 0" % hx(rnd.uniform(1, 5)) for _ in range(4)] + ["ctl 4 4 0"] * 60 + ["hold %d ctl 4 4 0" % (65536 - 64 - rnd.randint(4, 6))]
            s += ["ctl %s %s 0" % (hx(rnd.uniform(1, 5)), hx(rnd.uniform(1, 5))) for _ in range(12)]
            blocks.append(s)
        c.validate(exe, "PIDTrace", blocks, label="long histories")
    if full:        # more steps than a 16 bit counter holds, in either mode and with a model reference
        blocks = []
        for q in range(4):
            s = ["new %s %s %s %s" % (hx(rnd.uniform(0.5, 2)), hx(rnd.uniform(0.05, 0.5)), hx(rnd.uniform(0, 0.2)), hx(0.1)), "sat -40 40", "beta 0.5"]
            s += [["mrac 0.5 0.25"], ["mode man", "manual 5"], ["dir bwd"], ["weight 0.5 0.25"]][q]
            s += ["ctl 4 %s 4" % hx(rnd.uniform(1, 5)) for _ in range(4)] + ["ctl 4 4 4"] * 60 + ["hold %d ctl 4 4 4" % (65536 - 64 - rnd.randint(4, 6))]
            s += ["ctl %s %s 3" % (hx(rnd.uniform(1, 5)), hx(rnd.uniform(1, 5))) for _ in range(8)]
            s += ["mode auto", "reset"] + ["ctl %s %s 3" % (hx(rnd.uniform(1, 5)), hx(rnd.uniform(1, 5))) for _ in range(6)]
            blocks.append(s)
        c.validate(exe, "PIDTrace", blocks, label="long histories")
    if full:
        c.validate(exe, "PIDTrace", [odd(rnd) for _ in range(200 if c.thorough else 40)], label="samples that are no numbers, then a new start")
        n = 150 if c.thorough else 40
        c.validate(exe, "PIDTrace", [again(rnd) for _ in range(n)] + [reference(rnd) for _ in range(n)], label="set up again; model reference switched on and off")
