import sa


def tabulate(*args, **kwargs):
    return sa.string("table")
