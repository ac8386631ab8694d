import pidgen


def run(c):
    pidgen.run(c, 1, 140, 1500)
