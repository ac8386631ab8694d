"""C29: objects used side by side do not influence each other."""
import importlib
import random
import vlib

SOURCES = ["C01", "C02", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]


class Borrow:
    """stands in for a check: builds the interleaving driver, and collects the scripts instead of judging them"""
    def __init__(self, c):
        self.c, self.seed, self.thorough, self.jobs, self.assumptions = c, c.seed, False, [], []

    def model_check(self, *a, **k):
        return ""

    def generate(self, module, cfg=None, **k):
        if (module, cfg) not in CACHE:
            CACHE[(module, cfg)] = self.c.generate(module, cfg, **k)
        return CACHE[(module, cfg)]

    def build(self, name, **k):
        return self.c.build(name, ddefs=("VERIF_INTERLEAVE",), **k)

    def validate(self, exe, module, blocks, cfg=None, label=None, **k):
        self.jobs.append((exe, module, cfg, blocks, label))


CACHE = {}


def run(c):
    rnd = random.Random(c.seed * 29)
    scheds = [s for s in c.generate("FleetMC") if len(set(s)) > 1]
    per = 60 if c.thorough else 9          # groups of histories
    groups = {}
    for pid in SOURCES:
        b = Borrow(c)
        importlib.import_module("c" + pid[1:]).run(b)
        for exe, module, cfg, blocks, label in b.jobs:
            short = [x for x in blocks if len(x) <= (400 if c.thorough else 90)]
            groups.setdefault((exe, module, cfg), []).extend(rnd.sample(short, min(len(short), per * 6)))
    for (exe, module, cfg), blocks in groups.items():
        rnd.shuffle(blocks)
        c.validate(exe, module, blocks, cfg=cfg, label="side by side: " + module, scheds=[rnd.choice(scheds) for _ in range(200)])
