import value


def check(e):
    return value.run(e, [4,5])
