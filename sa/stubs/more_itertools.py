"""Functions of the module itertools in terms of loops."""
import sa


def zip_longest(*its, fillvalue=None):
    xs = [list(i) for i in its]
    n = max([len(x) for x in xs])
    return [tuple([x[k] if k < len(x) else fillvalue for x in xs]) for k in range(n)]


def compress(data, selectors):
    return [d for d, s in zip(data, selectors) if s]


def takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return out


def dropwhile(f, it):
    out = []
    on = False
    for x in it:
        if not on and not f(x):
            on = True
        if on:
            out.append(x)
    return out


def filterfalse(f, it):
    return [x for x in it if not (x if f is None else f(x))]


def pairwise(it):
    v = list(it)
    return [(v[i], v[i + 1]) for i in range(len(v) - 1)]


def groupby(it, key=None):
    out = []
    last = None
    for x in it:
        k = x if key is None else key(x)
        if len(out) and last == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
        last = k
    return out


def batched(it, n):
    v = list(it)
    return [tuple(v[i:i + n]) for i in range(0, len(v), n)]


def count(start=0, step=1):
    sa.undecided("itertools.count")


def tee(it, n=2):
    v = list(it)
    return tuple([list(v) for _ in range(n)])
