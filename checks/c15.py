import pidgen


def run(c):
    pidgen.run(c, 0, 140, 1500)
