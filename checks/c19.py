"""C19: fuzzy rules and their strengths."""
import random
import fisgen
from vlib import hx


def run(c):
    hist = c.generate("FISMC")
    exe = c.build("fis")
    rnd = random.Random(c.seed)
    t = c.thorough
    blocks = []
    for h in (hist if t else rnd.sample(hist, len(hist) // 2)):
        b = [fisgen.new("i", 1, 2, h["no"], 2, 1, len(h["rules"]), h["tok"]), "in 0 0 1", "in 1 0 1"] + ["out %d -10 10" % k for k in range(h["no"])]
        b += ["omf 0 0 19 - 1", "par 2 %d" % h["and"], "par 3 %d" % h["or"]]
        for f in h["fx"]:
            b += ["imf %d %d 0 - %s" % (k, k, hx(int(v.split("/")[0]) / float((v.split("/") + ["1"])[1]))) for k, v in enumerate(f)]
            b += ["fuz", "inf", "def"]
        blocks.append(b)
    c.validate(exe, "FISTrace", blocks, label="rule sets enumerated by the model")
    c.validate(exe, "FISTrace", [fisgen.rule_block(rnd, 4) for _ in range(4000 if t else 500)], label="random rule sets")
    c.validate(exe, "FISTrace", [fisgen.rule_block(rnd, 3, wrap=True) for _ in range(500 if t else 60)], label="random rule sets through fis::system")
    c.validate(exe, "FISTrace", [fisgen.recover_block(rnd) for _ in range(300 if t else 60)], label="sound rules after broken ones")
    c.validate(exe, "FISTrace", [fisgen.rule_part(rnd, 2 if t else 1, False, "new", big=True) for _ in range(100 if t else 8)], label="large systems")
    c.validate(exe, "FISTrace", [fisgen.many(rnd, fisgen.rule_block(rnd, 4), 65536) for q in range(12 if t else 4)], label="many inferences")
