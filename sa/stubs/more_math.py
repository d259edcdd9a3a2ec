"""Functions of the module math in terms of those the analyser knows natively."""
import math
import sa


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def hypot(*xs):
    return math.sqrt(sum([x * x for x in xs]))


def pow(x, y):
    return float(x) ** y


def copysign(x, y):
    return abs(x) if y >= 0 else -abs(x)


def isfinite(x):
    return not (math.isinf(x) or math.isnan(x))


def dist(p, q):
    return math.sqrt(sum([(a - b) ** 2 for a, b in zip(p, q)]))


def prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def fsum(xs):
    return sum(xs)


def sumprod(p, q):
    return sum([a * b for a, b in zip(p, q)])


def fabs(x):
    return abs(float(x))


def comb(n, k):
    if not (sa.known(n) and sa.known(k)):
        sa.undecided("comb")
    if k < 0 or k > n:
        return 0
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r
