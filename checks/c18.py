"""C18: fuzzy membership functions."""
import random
import fisgen


def run(c):
    c.model_check("FISMC")
    exe = c.build("fis")
    rnd = random.Random(c.seed)
    t = c.thorough
    blocks = [fisgen.member_block(rnd, 8, 5) for _ in range(2500 if t else 300)]
    c.validate(exe, "FISTrace", blocks, label="input sets through rule strengths")
    c.validate(exe, "FISTrace", [fisgen.tsuk_block(rnd, 6) for _ in range(2500 if t else 300)], label="inverses of Tsukamoto consequents")
    c.validate(exe, "FISTrace", [fisgen.out_block(rnd, 1, 0) for _ in range(200 if t else 24)], label="output sets through aggregated regions")
