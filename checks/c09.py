import smgen


def run(c):
    smgen.run(c, smgen.WINDOW, False, 40, 400, 70)
