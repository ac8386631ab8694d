import smgen


def run(c):
    smgen.run(c, smgen.RECURSIVE + smgen.WINDOW, True, 25, 250, 40)
