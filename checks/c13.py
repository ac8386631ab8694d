import ltigen


def run(c):
    ltigen.run(c, "c")
