"""C17: PID auto-tuning."""
import random
from vlib import hx


def expand(rnd, h):
    """a life-cycle history on a noisy plant; a few samples first so that the estimate is meaningful"""
    out = []
    for o in h:
        if o == "step":
            out.append("step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))))
        else:
            out.append(o)
            if o.startswith("bind"):
                out += ["type " + rnd.choice(["P", "PI", "PD", "PID"])]
                out += ["step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))) for _ in range(5)]
    return out


def head(rnd, dt=None, op=True):
    return ["new %s %s %s %s" % (hx(rnd.uniform(0.2, 1.0)), hx(rnd.uniform(0.05, 0.4)), hx(rnd.choice([0, 0.02])), hx(dt or rnd.choice([0.05, 0.1, 0.2]))),
            "sat -20 20", "plant %s %s" % (hx(rnd.uniform(0.4, 0.92)), hx(rnd.uniform(0.4, 2)))] + (["open"] if op else [])


def run(c):
    rnd = random.Random(c.seed * 7 + 17)
    hist = c.generate("AutoTuneMC")
    exe = c.build("autotune")
    pick = hist if c.thorough else rnd.sample(hist, 500)
    c.validate(exe, "AutoTuneTrace", [head(rnd) + expand(rnd, h) for h in pick], label="life-cycle behaviours replayed")
    blocks = []
    for q in range(400 if c.thorough else 60):
        op = q % 3 != 0        # closed loops keep their gains until the end: arbitrary tuned gains may destabilise them
        s = head(rnd, op=op)
        if q % 6 == 0:
            s[0:0] = ["new 1 1 0 0", "bind 0", "enable 3", "type P", "params 0.5 0.5 0.9", "unbind"]
            s[6] = "setup" + s[6][3:]
        if rnd.random() < 0.8:
            s.append("bind 0")
        for _ in range(rnd.choice([20, 60])):
            r = rnd.random()
            if r < 0.75:
                s.append("step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))))
            elif r < 0.81:
                s.append("enable %s" % rnd.choice(["1", "2", "5", "9", "0", "ever"] if op else ["0", "ever"]))
            elif r < 0.86:
                s.append("type " + rnd.choice(["P", "PI", "PD", "PID"]))
            elif r < 0.91:
                s.append("params %s %s %s" % (hx(rnd.choice([0.5, 0.95, 0.99, rnd.uniform(0.1, 0.99), -0.5, 1.5, 1.0000002, 1e-30])), hx(rnd.choice([0.25, 1.0, rnd.uniform(0.1, 1), 0, 2, 1.0000002, 1.02])), hx(rnd.choice([0.9, 0.99, 1.0, rnd.uniform(0.85, 1), 1.1, 0, 1.0000002, 1.02]))))
            elif r < 0.93:
                s.append("bind %d" % rnd.randrange(2))
            elif r < 0.95:
                s.append("unbind")
            elif r < 0.97:
                s.append("reset")
            elif r < 0.985:
                s.append("gains %s %s 0" % (hx(rnd.uniform(0.2, 1)), hx(rnd.uniform(0.1, 0.5))))
            else:
                s.append("plant %s %s" % (hx(rnd.uniform(0.4, 0.92)), hx(rnd.uniform(0.4, 2))))
        if not op:
            s += ["enable 2"] + ["step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))) for _ in range(3)]
        for edge in ((1.0000002, -1e-30, 1.02) if q % 4 == 0 else ()):
            for at in range(3):
                v = [0.5, 0.5, 0.95]
                v[at] = edge
                s.insert(len(s) // 2, "params %s %s %s" % tuple(hx(x) for x in v))
        if q % 5 == 0:
            s += ["params 1 1 1", "params 0.9 0.5 0.98"]
        s += ["type " + k for k in ("P", "PI", "PD", "PID", "P")]
        blocks.append(s)
    c.validate(exe, "AutoTuneTrace", blocks, label="random histories")
    # armed for longer than any small counter can hold
    blocks = []
    for n in (255, 256, 257, 300) + ((600, 1000) if c.thorough else ()):
        s = head(rnd) + ["bind 0", "type " + rnd.choice(["PI", "PID"]), "enable %d" % n]
        blocks.append(s + ["step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))) for _ in range(n + 8)])
    for n in (65536, 65537, 65540, 16777216, 2000000000):      # not due for a long time
        s = head(rnd) + ["bind 0", "type PI", "enable %d" % n]
        blocks.append(s + ["step %s %s" % (hx(rnd.uniform(-3, 5)), hx(rnd.gauss(0, 0.01))) for _ in range(30)])
    # thousands of steps between arming and the change, or with nothing due at all
    for n, m in ((65535, 65534), (65536, 65600), (65537, 65536), (65600, 140000), (131072, 131070), (300, 70000), ("0", 140000), ("ever", 140000)):
        s = head(rnd) + ["bind 0", "type PI"] + ["step %s 0" % hx(rnd.uniform(-3, 5)) for _ in range(12)] + ["run 200", "enable %s" % n, "run %d" % m]
        s += ["run 80", "run 70000"] if n in (300, 65600) else []
        blocks.append(s)
    c.validate(exe, "AutoTuneTrace", blocks, label="long tuning periods")
    if c.thorough:      # tuning without end for longer than a 32 bit counter lasts
        blocks = [head(rnd) + ["bind 0", "type PI", "enable %s" % n, "run 4294968000"] for n in ("ever", "0")]
        c.validate(c.build("autotune", asan=False, flags=("-O3",)), "AutoTuneTrace", blocks, label="4294968000 steps of tuning without end", timeout=3000)
    c.assumptions += ["well excited closed loops; identified gain and lag compared to 0.1 % with the exact recursion",
                      "momentum 0 and forgetting factors below 0.8, on which documentation and code disagree, are not exercised"]
