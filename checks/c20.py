"""C20: aggregation and defuzzification."""
import random
import fisgen


def run(c):
    c.model_check("FISMC")
    exe = c.build("fis")
    rnd = random.Random(c.seed)
    t = c.thorough
    c.validate(exe, "FISTrace", [fisgen.out_block(rnd, 4, 0) for _ in range(320 if t else 32)], label="Mamdani systems")
    c.validate(exe, "FISTrace", [fisgen.out_block(rnd, 5, rnd.choice([1, 1, 2])) for _ in range(4000 if t else 500)], label="Sugeno and Tsukamoto systems")
    c.validate(exe, "FISTrace", [fisgen.out_block(rnd, 3, rnd.choice([0, 1, 1, 2]), wrap=True) for _ in range(200 if t else 32)], label="systems through fis::system")
    c.validate(exe, "FISTrace", [fisgen.plateau_block(rnd, 5) for _ in range(200 if t else 24)], label="regions with several plateaus")
    c.validate(exe, "FISTrace", [fisgen.many(rnd, fisgen.out_block(rnd, 4, 1 + q % 2), 65536) for q in range(12 if t else 4)], label="many inferences")
