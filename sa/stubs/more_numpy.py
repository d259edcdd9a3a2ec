"""Functions of numpy in terms of those the analyser knows natively."""
import numpy as np
import sa


def _size(a):
    n = len(a)
    if not sa.known(n):
        sa.undecided("function of numpy on an array of symbolic size")
    return n


def _flat(a):
    return np.ravel(np.asarray(a))


def roll(a, shift, axis=None):
    a = np.asarray(a)
    if axis is None and a.ndim > 1:
        return roll(a.ravel(), shift).reshape(a.shape)
    if axis is not None and a.ndim > 1:
        return np.swapaxes(_roll0(np.swapaxes(a, 0, axis), shift), 0, axis)
    return _roll0(a, shift)


def _roll0(a, shift):
    n = _size(a)
    if not sa.known(shift):
        sa.undecided("roll by a symbolic distance")
    if n == 0:
        return np.copy(a)
    k = (-shift) % n
    return np.concatenate([a[k:], a[:k]])


def heaviside(x, h):
    return np.where(x < 0, 0.0, np.where(x == 0, h, 1.0))


def _arg(a, larger):
    n = _size(a)
    if n == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    k = 0
    best = a[0]
    for i in range(1, n):
        better = a[i] > best if larger else a[i] < best
        k = i if better else k
        best = a[i] if better else best
    return k


def argmax(a, axis=None):
    return _arg_axis(a, axis, True)


def argmin(a, axis=None):
    return _arg_axis(a, axis, False)


def _arg_axis(a, axis, larger):
    a = np.asarray(a)
    if axis is None or a.ndim == 1:
        return np.int64(_arg(a.ravel(), larger))
    if a.ndim != 2:
        sa.undecided("position of an extremum along an axis")
    b = np.transpose(a) if axis == 0 else a
    return np.array([_arg(row, larger) for row in b])


def nd_argmax(a, axis=None):
    return argmax(a, axis)


def nd_argmin(a, axis=None):
    return argmin(a, axis)


def sort(a, axis=-1, kind=None):
    a = np.asarray(a)
    if a.ndim == 0:
        raise ValueError("cannot sort a scalar")
    if a.ndim > 1:
        if a.ndim > 2:
            sa.undecided("sort")
        if axis is None:
            return sort(a.ravel())
        if axis == 0:
            return np.transpose(sort(np.transpose(a)))
        return np.array([sort(row) for row in a])
    n = _size(a)
    v = [x for x in a]
    if n > 5 and not sa.known(a):
        sa.undecided("sort of more than five symbolic values")
    for i in range(n):
        for j in range(n - 1 - i):
            low = min(v[j], v[j + 1])
            high = max(v[j], v[j + 1])
            v[j] = low
            v[j + 1] = high
    return np.array(v) if n else np.copy(a)


def nd_sort(a, axis=-1, kind=None):
    a[...] = sort(a, axis)


def argsort(a, axis=-1, kind=None):
    a = np.asarray(a)
    if a.ndim != 1:
        sa.undecided("argsort of an array with several axes")
    n = _size(a)
    if n > 5 and not sa.known(a):
        sa.undecided("argsort of more than five symbolic values")
    # rank of every entry, then the inverse permutation
    rank = []
    for i in range(n):
        r = 0
        for j in range(n):
            if j < i:
                r = r + (1 if a[j] <= a[i] else 0)
            elif j > i:
                r = r + (1 if a[j] < a[i] else 0)
        rank.append(r)
    out = []
    for k in range(n):
        p = 0
        for i in range(n):
            p = p + (i if rank[i] == k else 0)
        out.append(p)
    return np.array(out, dtype=int)


def nd_argsort(a, axis=-1, kind=None):
    return argsort(a, axis)


def unique(a, return_index=False, return_inverse=False, return_counts=False):
    a = _flat(a)
    if not sa.known(a) or return_index or return_inverse or return_counts:
        sa.undecided("unique of symbolic values")
    out = []
    for x in sort(a):
        if len(out) == 0 or out[-1] != x:
            out.append(x)
    return np.array(out)


def searchsorted(a, v, side="left", sorter=None):
    a = np.asarray(a)
    if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0:
        v = np.asarray(v)
        if v.ndim != 1:
            sa.undecided("searchsorted")
        m = a[np.newaxis, :] < v[:, np.newaxis] if side == "left" else a[np.newaxis, :] <= v[:, np.newaxis]
        return np.sum(m, axis=1)
    return np.sum(a < v) if side == "left" else np.sum(a <= v)


def nd_searchsorted(a, v, side="left", sorter=None):
    return searchsorted(a, v, side)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    n = minlength
    if sa.known(x):
        n = max(minlength, int(np.max(x)) + 1) if len(x) else minlength
    elif not sa.known(np.all(x < minlength)):
        sa.undecided("largest entry of bincount")
    elif not np.all(x < minlength):
        sa.undecided("largest entry of bincount")
    out = np.zeros(n) if weights is not None else np.zeros(n, dtype=int)
    for k in range(n):
        hit = x == k
        out[k] = np.sum(hit) if weights is None else np.sum(np.where(hit, weights, 0.0))
    return out


def add_at(a, indices, b):
    _at(a, indices, b, 1)


def subtract_at(a, indices, b):
    _at(a, indices, b, -1)


def _at(a, indices, b, sign):
    chosen = sa.selection(*(tuple(indices) + (b,))) if isinstance(indices, tuple) else sa.selection(indices, b)
    if chosen is not None:
        b = np.where(chosen[0], chosen[-1], 0.0)
        indices = tuple(chosen[1:-1]) if isinstance(indices, tuple) else chosen[1]
        if isinstance(indices, tuple):
            _at(a, tuple(np.where(chosen[0], np.asarray(i), 0) for i in indices), b, sign)
        else:
            _at(a, np.where(chosen[0], np.asarray(indices), 0), b, sign)
        return
    if isinstance(indices, tuple):
        if len(indices) != 2 or a.ndim != 2:
            sa.undecided("ufunc.at")
        i = np.asarray(indices[0])
        j = np.asarray(indices[1])
        for k in range(_size(a)):
            for m in range(len(a[k])):
                a[k, m] += sign * np.sum(np.where((i == k) & (j == m), b, 0.0))
        return
    i = np.asarray(indices)
    if a.ndim != 1 or i.dtype == bool:
        sa.undecided("ufunc.at")
    n = _size(a)
    i = np.where(i < 0, i + n, i)
    for k in range(n):
        a[k] += sign * np.sum(np.where(i == k, b, 0.0))


def kron(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np.outer(a, b).ravel()
    if a.ndim != 2 or b.ndim != 2:
        sa.undecided("kron")
    return np.vstack([np.hstack([x * b for x in row]) for row in a])


def fromiter(it, dtype, count=-1):
    return np.array([x for x in it], dtype=dtype)


def linalg_det(a):
    a = np.asarray(a)
    n = _size(a)
    if n == 0:
        return 1.0
    if n == 1:
        return a[0, 0]
    if n > 3:
        sa.undecided("determinant")
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
            + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))


def linalg_matrix_power(a, n):
    out = np.eye(_size(a))
    for _ in range(n):
        out = out @ a
    return out


def block(rows):
    if isinstance(rows, list) and len(rows) and isinstance(rows[0], list):
        return np.vstack([np.hstack([np.atleast_2d(x) for x in row]) for row in rows])
    return np.hstack(rows)


def insert(a, pos, values, axis=None):
    a = np.asarray(a)
    if a.ndim != 1 and axis is None:
        a = a.ravel()
    if axis is not None and axis not in (0, -1) and a.ndim > 1:
        return np.swapaxes(insert(np.swapaxes(a, 0, axis), pos, values, 0), 0, axis)
    if a.ndim == 1 and not isinstance(pos, (list, tuple, np.ndarray)) and sa.known(pos):
        p = pos if pos >= 0 else pos + len(a)
        r = np.concatenate([a[:p], np.atleast_1d(values), a[p:]])
        return r.astype(a.dtype) if a.dtype == int else r
    n = _size(a)
    if isinstance(pos, (list, tuple, np.ndarray)):
        pos = [p for p in pos]
        many = True
    else:
        pos = [pos]
        many = False
    if not many and np.ndim(values) == a.ndim:
        p = pos[0] if pos[0] >= 0 else pos[0] + n
        return np.concatenate([a[:p], np.asarray(values), a[p:]])
    for p in pos:
        if not sa.known(p):
            sa.undecided("insert at a symbolic position")
    at = [p if p >= 0 else p + n for p in pos]
    vals = [v for v in values] if np.ndim(values) == a.ndim and np.ndim(values) > 0 else [values for _ in pos]
    if len(vals) == 1:
        vals = [vals[0] for _ in pos]
    out = []
    for i in range(n + 1):
        for p, v in zip(at, vals):
            if p == i:
                out.append(np.broadcast_to(v, a.shape[1:]) if a.ndim > 1 else v)
        if i < n:
            out.append(a[i])
    r = np.array(out)
    return r.astype(a.dtype) if a.dtype == int else r


def ix_(*seqs):
    out = []
    n = len(seqs)
    for k, s in enumerate(seqs):
        s = np.asarray(s)
        if s.dtype == bool:
            s = np.flatnonzero(s)
        out.append(s.reshape((1,) * k + (-1,) + (1,) * (n - 1 - k)))
    return tuple(out)


def average(a, axis=None, weights=None, returned=False):
    a = np.asarray(a)
    if weights is None:
        return np.mean(a, axis=axis)
    weights = np.asarray(weights)
    if axis is not None and weights.ndim != a.ndim:
        if weights.ndim != 1:
            sa.undecided("average")
        weights = np.broadcast_to(np.expand_dims(weights, 1) if axis == 0 and a.ndim == 2 else weights, a.shape)
    w = np.sum(weights, axis=axis)
    r = np.sum(a * weights, axis=axis) / w
    return (r, w) if returned else r


def median(a, axis=None):
    if axis is not None and np.ndim(a) > 1:
        sa.undecided("median along an axis")
    v = sort(_flat(a))
    n = len(v)
    if n % 2 == 1:
        return v[n // 2]
    return (v[n // 2 - 1] + v[n // 2]) / 2


def ptp(a, axis=None):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


def nd_ptp(a, axis=None):
    return ptp(a, axis)


def diagflat(v, k=0):
    return np.diag(_flat(v), k) if k else np.diag(_flat(v))


def _tri_mask(a, k, upper):
    rows = np.arange(a.shape[0])[:, np.newaxis]
    cols = np.arange(a.shape[1])[np.newaxis, :]
    return cols - rows >= k if upper else cols - rows <= k


def triu(m, k=0):
    m = np.asarray(m)
    return np.where(_tri_mask(m, k, True), m, np.zeros_like(m))


def tril(m, k=0):
    m = np.asarray(m)
    return np.where(_tri_mask(m, k, False), m, np.zeros_like(m))


def tri(n, m=None, k=0, dtype=float):
    return tril(np.ones((n, n if m is None else m), dtype=dtype), k)


def _tri_indices(n, k, upper):
    i = [r for r in range(n) for c in range(n) if (c - r >= k if upper else c - r <= k)]
    j = [c for r in range(n) for c in range(n) if (c - r >= k if upper else c - r <= k)]
    return np.array(i, dtype=int), np.array(j, dtype=int)


def triu_indices(n, k=0, m=None):
    return _tri_indices(n, k, True)


def tril_indices(n, k=0, m=None):
    return _tri_indices(n, k, False)


def triu_indices_from(a, k=0):
    return _tri_indices(len(a), k, True)


def tril_indices_from(a, k=0):
    return _tri_indices(len(a), k, False)


def diag_indices(n, ndim=2):
    i = np.arange(n)
    return tuple([i for _ in range(ndim)])


def diag_indices_from(a):
    return diag_indices(len(a), np.ndim(a))


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [np.asarray(x) for x in xs]
    n = len(xs)
    if n == 1:
        return [np.copy(xs[0])]
    out = []
    if n == 2 and indexing == "xy":
        shape = (len(xs[1]), len(xs[0]))
        return [np.broadcast_to(xs[0][np.newaxis, :], shape).copy(), np.broadcast_to(xs[1][:, np.newaxis], shape).copy()]
    if indexing == "xy":
        sa.undecided("meshgrid of three axes")
    shape = tuple([len(x) for x in xs])
    for k in range(n):
        out.append(np.broadcast_to(xs[k].reshape((1,) * k + (-1,) + (1,) * (n - 1 - k)), shape).copy())
    return out


def put(a, ind, v):
    if a.ndim != 1:
        sa.undecided("put")
    a[np.asarray(ind)] = v


def putmask(a, mask, values):
    if np.ndim(values) > 0:
        a[...] = np.where(mask, values, a)
    else:
        a[mask] = values


def place(a, mask, vals):
    if np.size(vals) != 1:
        sa.undecided("place of several values")
    a[mask] = np.ravel(vals)[0]


def select(conds, choices, default=0):
    out = default
    for c, v in reversed(list(zip(conds, choices))):
        out = np.where(c, v, out)
    return out


def choose(a, choices):
    out = choices[0]
    for k in range(1, len(choices)):
        out = np.where(np.asarray(a) == k, choices[k], out)
    return out


def piecewise(x, condlist, funclist, *args):
    x = np.asarray(x)
    out = np.zeros_like(x)
    if len(funclist) == len(condlist) + 1:
        f = funclist[-1]
        out = np.where(np.ones(x.shape, dtype=bool), f(x) if callable(f) else f, out)
    for c, f in zip(condlist, funclist):
        out = np.where(c, f(x) if callable(f) else f, out)
    return out


def isin(a, test, assume_unique=False, invert=False):
    a = np.asarray(a)
    out = np.zeros(a.shape, dtype=bool)
    for t in np.ravel(np.asarray(test)):
        out = out | (a == t)
    return ~out if invert else out


def in1d(a, test, assume_unique=False, invert=False):
    return isin(a, test, invert=invert).ravel()


def broadcast_arrays(*xs):
    shape = np.shape(sum([np.zeros(np.shape(x)) for x in xs]))
    return [np.broadcast_to(x, shape) for x in xs]


def apply_along_axis(f, axis, a, *args, **kwargs):
    a = np.asarray(a)
    if a.ndim == 1:
        return f(a, *args, **kwargs)
    if a.ndim != 2:
        sa.undecided("apply_along_axis")
    if axis == 0:
        r = np.array([f(c, *args, **kwargs) for c in np.transpose(a)])
        return np.transpose(r) if r.ndim > 1 else r
    return np.array([f(row, *args, **kwargs) for row in a])


class vectorize:
    def __init__(self, f, otypes=None):
        self.f = f

    def __call__(self, *args):
        if len(args) != 1 or np.ndim(args[0]) == 0:
            if all([np.ndim(x) == 0 for x in args]):
                return self.f(*args)
            xs = broadcast_arrays(*args)
            if xs[0].ndim != 1:
                sa.undecided("vectorized function")
            return np.array([self.f(*z) for z in zip(*xs)])
        a = np.asarray(args[0])
        return np.array([self.f(x) for x in a.ravel()]).reshape(a.shape)


def moveaxis(a, source, destination):
    a = np.asarray(a)
    n = a.ndim
    s = source % n
    d = destination % n
    order = [i for i in range(n) if i != s]
    order.insert(d, s)
    return np.transpose(a, order)


def rollaxis(a, axis, start=0):
    return moveaxis(a, axis, start if start <= axis else start - 1)


def cov(m, y=None, rowvar=True, bias=False, ddof=None):
    if y is not None or not rowvar:
        sa.undecided("cov")
    m = np.atleast_2d(m)
    n = m.shape[1]
    d = m - np.mean(m, axis=1)[:, np.newaxis]
    k = (0 if bias else 1) if ddof is None else ddof
    r = d @ d.T / (n - k)
    return r if len(r) > 1 else r[0, 0]


def corrcoef(m, y=None, rowvar=True):
    c = cov(m)
    s = np.sqrt(np.diag(c))
    return c / np.outer(s, s)


def r_(items):
    return np.concatenate([np.atleast_1d(x) for x in items])


def c_(items):
    return np.column_stack([np.atleast_1d(x) for x in items])


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [t + (i,) for t in out for i in range(n)]
    return out


def ndenumerate(a):
    a = np.asarray(a)
    return [(i, a[i]) for i in ndindex(*a.shape)]


def gradient(f, *varargs):
    sa.undecided("gradient")


def nanmax(a, axis=None):
    return np.max(a, axis=axis)


def nanmin(a, axis=None):
    return np.min(a, axis=axis)


def nanmean(a, axis=None):
    return np.mean(a, axis=axis)


def union1d(a, b):
    return unique(np.concatenate([_flat(a), _flat(b)]))


def intersect1d(a, b):
    b = _flat(b)
    return unique(np.array([x for x in unique(a) if x in b]))


def setdiff1d(a, b, assume_unique=False):
    b = _flat(b)
    if not sa.known(_flat(a)) or not sa.known(b):
        sa.undecided("setdiff1d")
    out = [x for x in _flat(a) if x not in b]
    return np.array(out, dtype=np.asarray(a).dtype) if assume_unique else unique(np.array(out, dtype=np.asarray(a).dtype))


def extract(cond, a):
    return np.ravel(a)[np.ravel(cond)]


def compress(cond, a, axis=None):
    if axis is None or np.ndim(a) == 1:
        return np.ravel(a)[np.ravel(cond)]
    return np.take(a, np.flatnonzero(cond), axis=axis)


def nd_compress(a, cond, axis=None):
    return compress(cond, a, axis)


def argwhere(a):
    return np.transpose(np.array(np.nonzero(a)))


def unravel_index(i, shape):
    out = []
    for n in reversed(shape):
        out.append(i % n)
        i = i // n
    return tuple(reversed(out))


def ravel_multi_index(idx, shape):
    r = 0
    for i, n in zip(idx, shape):
        r = r * n + i
    return r


def take_along_axis(a, ind, axis):
    if np.ndim(a) == 1:
        return np.asarray(a)[np.asarray(ind)]
    sa.undecided("take_along_axis")


def pad(a, width, mode="constant", constant_values=0):
    a = np.asarray(a)
    if a.ndim != 1 or mode != "constant":
        sa.undecided("pad")
    lo, hi = (width, width) if isinstance(width, int) else width[0] if isinstance(width[0], (list, tuple)) else (width if len(width) > 1 else (width[0], width[0]))
    return np.concatenate([np.full(lo, constant_values), a, np.full(hi, constant_values)])


def nansum(a, axis=None):
    return np.sum(a, axis=axis)


def add_reduceat(a, indices):
    indices = [i for i in indices]
    out = []
    n = _size(a)
    for k, i in enumerate(indices):
        j = indices[k + 1] if k + 1 < len(indices) else n
        out.append(np.sum(a[i:j]) if i < j else a[i])
    return np.array(out)


def multiply_accumulate(a):
    return np.cumprod(a)


def cumprod(a, axis=None):
    out = []
    p = 1
    for x in np.ravel(a):
        p = p * x
        out.append(p)
    return np.array(out)


def nd_cumprod(a, axis=None):
    return cumprod(a)


def trapz(y, x=None, dx=1.0):
    y = np.asarray(y)
    d = dx if x is None else np.diff(x)
    return np.sum(d * (y[1:] + y[:-1]) / 2)


def trapezoid(y, x=None, dx=1.0):
    return trapz(y, x, dx)


def interp(x, xp, fp):
    sa.undecided("interp")


def array_equiv(a, b):
    return bool(np.all(np.asarray(a) == np.asarray(b)))


def lexsort(keys):
    sa.undecided("lexsort")


def fliplr(a):
    return np.flip(a, axis=1)


def flipud(a):
    return np.flip(a, axis=0)


def atleast_3d(a):
    sa.undecided("atleast_3d")


def rot90(a, k=1):
    sa.undecided("rot90")


def dstack(xs):
    return np.stack([np.atleast_2d(x) for x in xs], axis=2)


def hsplit(a, n):
    return np.split(a, n, axis=1 if np.ndim(a) > 1 else 0)


def vsplit(a, n):
    return np.split(a, n, axis=0)


def resize(a, shape):
    sa.undecided("resize")


def nd_nonzero(a):
    return np.nonzero(a)


def nd_put(a, ind, v):
    put(a, ind, v)


def fill_diagonal_offset(a, v):
    sa.undecided("fill_diagonal")


def einsum_path(*args, **kwargs):
    sa.undecided("einsum_path")


def require(a, dtype=None, requirements=None):
    return np.asarray(a, dtype=dtype)


def broadcast_shapes(*shapes):
    return np.shape(sum([np.zeros(s) for s in shapes]))


def linalg_slogdet(a):
    d = linalg_det(a)
    return np.sign(d), np.log(np.abs(d))


def linalg_matrix_rank(a):
    sa.undecided("matrix_rank")
