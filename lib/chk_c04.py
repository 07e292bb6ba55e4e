import value


def check(e):
    return value.run(e, [6,7,8,9,10,11,12])
