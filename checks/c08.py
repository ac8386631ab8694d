import smgen


def run(c):
    smgen.run(c, smgen.RECURSIVE, False, 30, 400, 50)
