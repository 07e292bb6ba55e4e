import value


def check(e):
    return value.run(e, [0,1])
