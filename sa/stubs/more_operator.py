"""Functions of the module operator."""


def matmul(a, b):
    return a @ b


def neg(a):
    return -a


def pos(a):
    return +a


def pow(a, b):
    return a ** b


def mod(a, b):
    return a % b


def floordiv(a, b):
    return a // b


def and_(a, b):
    return a & b


def or_(a, b):
    return a | b


def xor(a, b):
    return a ^ b


def not_(a):
    return not a


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


def setitem(a, k, v):
    a[k] = v


def delitem(a, k):
    del a[k]


def abs(a):
    return a if a >= 0 else -a


def truth(a):
    return bool(a)


def countOf(a, b):
    return len([x for x in a if x == b])
