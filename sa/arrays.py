"""Symbolic arrays: every axis is a sequence of segments of symbolic length,
every block of segments has one element expression over local index atoms."""
from terms import *
import terms as T


class ShapeError(Exception):
    """numpy would raise ValueError (shapes do not fit)."""


class IndexErr(Exception):
    """numpy would raise IndexError."""


def ax(d, n):
    return atom(mk("ax", d, n))


class Single(str):
    """dtype of arrays in single precision: 'float', but storing rounds"""
    __slots__ = ()


SINGLE = Single("float")


def single(a):
    """The contents rounded to single precision."""
    return ArrC(a.axes, {k: T.fn("single", v) for k, v in a.blocks.items()}, SINGLE)


class ArrC:
    __slots__ = ("axes", "blocks", "dtype")

    def __init__(self, axes, blocks, dtype="float"):
        self.axes, self.blocks, self.dtype = axes, blocks, dtype

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(total(a) for a in self.axes)

    def key(self):
        return mk_arr(self.axes, self.blocks)

    def __repr__(self):
        return show_arg(self.key())


def total(segs):
    s = ZERO
    for x in segs:
        s = add(s, x)
    return s


def norm_len(n):
    """Segments of an axis of length n."""
    n = P(n)
    c = n.const
    if c is not None:
        if c < 0 or c.denominator != 1:
            raise ShapeError("negative or fractional dimension")
        if c > 64:
            return (n,)
        return (ONE,) * int(c)
    return (n,)


def keys(axes):
    out = [()]
    for a in axes:
        out = [k + (s,) for k in out for s in range(len(a))]
    return out


def offsets(segs):
    o = ZERO
    out = []
    for s in segs:
        out.append(o)
        o = add(o, s)
    return out


def loc(d, n):
    """Local index inside a segment of length n."""
    return ZERO if n is ONE else ax(d, n)


def build(shape, f, dtype="float"):
    """Array with element f(global indices)."""
    axes = tuple(norm_len(n) for n in shape)
    return build_axes(axes, f, dtype)


def build_axes(axes, f, dtype="float"):
    offs = [offsets(a) for a in axes]
    blocks = {}
    for k in keys(axes):
        ix = [add(offs[d][s], loc(d, axes[d][s])) for d, s in enumerate(k)]
        blocks[k] = f(*ix)
    return ArrC(axes, blocks, dtype)


def full(shape, v, dtype="float"):
    return build(shape, lambda *i: v, dtype)


def fmap(f, a, dtype=None):
    return ArrC(a.axes, {k: f(v) for k, v in a.blocks.items()}, dtype or a.dtype)


def le_(a, b):
    """a <= b decided? True/False/None."""
    r = T.sign_lt0(add(b, neg(a)))
    if r is not None:
        return not r
    return None


def cmp_len(a, b):
    """-1,0,1 or None."""
    if a is b:
        return 0
    d = add(a, neg(b))
    c = d.const
    if c is not None:
        return -1 if c < 0 else (1 if c > 0 else 0)
    if T.sign_lt0(d) is True:
        return -1
    if T.sign_lt0(neg(d)) is True:
        return 1
    # <= with possible equality
    return None


def split_axis(a, d, points):
    """Refine axis d so that the given positions are segment boundaries."""
    segs = list(a.axes[d])
    newsegs = []
    parts = []      # (old seg index, start offset, length)
    pos = ZERO
    pts = list(points)
    for si, L in enumerate(segs):
        start = ZERO
        remaining = L
        while True:
            # find a point strictly inside (pos+start, pos+L)
            best = None
            for p in pts:
                r = add(p, neg(add(pos, start)))
                if r is ZERO:
                    continue
                lo = cmp_len(r, ZERO)
                if lo is None:
                    if T.sign_lt0(r) is False:
                        lo = None
                hi = cmp_len(r, remaining)
                if lo == 1 and hi == -1:
                    if best is None or cmp_len(r, best) == -1:
                        best = r
                elif hi is None and lo == 1 or lo is None and hi == -1:
                    # undecided position: relevant only if it may be inside
                    if r is remaining:
                        continue
                    if T.sign_lt0(r) is True:
                        continue
                    raise Undecided("cannot order segment boundaries")
                elif lo is None and hi is None and r is not remaining:
                    raise Undecided("cannot order segment boundaries")
            if best is None:
                parts.append((si, start, remaining))
                break
            parts.append((si, start, best))
            start = add(start, best)
            remaining = add(remaining, neg(best))
        pos = add(pos, L)
    if len(parts) == len(segs):
        return a
    flat = []
    for si, st, L in parts:
        c = L.const
        if c is not None and c > 1 and c <= 64:
            for k in range(int(c)):
                flat.append((si, add(st, num(k)), ONE))
        else:
            flat.append((si, st, L))
    axes = list(a.axes)
    axes[d] = tuple(p[2] for p in flat)
    blocks = {}
    for k in keys(axes):
        si, st, L = flat[k[d]]
        ok = k[:d] + (si,) + k[d + 1:]
        v = a.blocks[ok]
        oldL = a.axes[d][si]
        if oldL is not L or st is not ZERO:
            v = subst(v, {mk("ax", d, oldL): add(st, loc(d, L))})
        blocks[k] = v
    return ArrC(tuple(axes), blocks, a.dtype)


def bounds(segs):
    o = ZERO
    out = []
    for s in segs:
        o = add(o, s)
        out.append(o)
    return out


def align2(a, da, b, db):
    """Same partition for axis da of a and axis db of b (equal total length)."""
    if a.axes[da] == b.axes[db]:
        return a, b
    ta, tb = total(a.axes[da]), total(b.axes[db])
    if ta is not tb:
        raise ShapeError(f"lengths {show(ta)} and {show(tb)} do not match")
    a2 = split_axis(a, da, bounds(b.axes[db])[:-1])
    b2 = split_axis(b, db, bounds(a2.axes[da])[:-1])
    a2 = split_axis(a2, da, bounds(b2.axes[db])[:-1])
    if a2.axes[da] != b2.axes[db]:
        raise Undecided("segments cannot be aligned")
    return a2, b2


def bcast(arrs):
    """Broadcast to a common shape with common segments."""
    nd = max(a.ndim for a in arrs)
    out = []
    for a in arrs:
        if a.ndim < nd:
            k = nd - a.ndim
            blocks = {}
            for key, v in a.blocks.items():
                mp = {}
                for d, s in enumerate(key):
                    L = a.axes[d][s]
                    if L is not ONE:
                        mp[mk("ax", d, L)] = ax(d + k, L)
                blocks[(0,) * k + key] = subst(v, mp) if mp else v
            a = ArrC(((ONE,),) * k + a.axes, blocks, a.dtype)
        out.append(a)
    for d in range(nd):
        tot = None
        for a in out:
            t = total(a.axes[d])
            if t is not ONE:
                if tot is not None and tot is not t:
                    if T.sign_eq0(add(tot, neg(t))) is None and False:
                        pass
                    raise ShapeError(f"operands could not be broadcast together ({show(tot)} vs {show(t)})")
                tot = t
        if tot is None:
            continue
        # align the non-one axes
        idx = [i for i, a in enumerate(out) if total(a.axes[d]) is tot]
        for _ in range(2):
            for x in idx[1:]:
                out[idx[0]], out[x] = align2(out[idx[0]], d, out[x], d)
        segs = out[idx[0]].axes[d]
        for i, a in enumerate(out):
            if i in idx:
                continue
            axes = list(a.axes)
            axes[d] = segs
            blocks = {}
            for k in keys(axes):
                blocks[k] = a.blocks[k[:d] + (0,) + k[d + 1:]]
            out[i] = ArrC(tuple(axes), blocks, a.dtype)
    return out


def ew(f, *arrs, dtype=None):
    if all(a.axes == arrs[0].axes for a in arrs):
        al = arrs
    else:
        al = bcast(arrs)
    a0 = al[0]
    return ArrC(a0.axes, {k: f(*[a.blocks[k] for a in al]) for k in a0.blocks}, dtype or a0.dtype)


def scalar(p, dtype="float"):
    return ArrC((), {(): p}, dtype)


def item(a):
    """The single element of a 0-d or one-element array."""
    if all(len(x) == 1 and x[0] is ONE for x in a.axes):
        return a.blocks[(0,) * a.ndim]
    return None


def constant(a):
    """The number all elements are, if it is known."""
    ps = list(a.blocks.values())
    if not ps or ps[0].const is None or any(p is not ps[0] for p in ps):
        return None
    return ps[0]


# ------------------------------------------------------------ indexing

def norm_index(i, n):
    """Non-negative position of index i on an axis of length n."""
    c = i.const
    if c is not None:
        if c < 0:
            i = add(i, n)
    elif T.sign_lt0(i) is True:
        i = add(i, n)
    return i


def elem_at(a, d, i):
    """Remove axis d at (normalised) position i."""
    segs = a.axes[d]
    offs = offsets(segs)
    tot = total(segs)
    if T.sign_lt0(add(tot, neg(add(i, ONE)))) is True or T.sign_lt0(i) is True:
        raise IndexErr(f"index {show(i)} is out of bounds for axis with size {show(tot)}")
    rest = a.axes[:d] + a.axes[d + 1:]

    def reduce_key(v, key):
        # rename the axes above d
        mp = {}
        for dd in range(d, len(rest)):
            L = rest[dd][key[dd]]
            if L is not ONE:
                mp[mk("ax", dd + 1, L)] = ax(dd, L)
        return subst(v, mp) if mp else v
    # locate segment
    hit = None
    cands = []
    for s, L in enumerate(segs):
        r = add(i, neg(offs[s]))
        below = T.sign_lt0(r)
        above = T.sign_lt0(add(r, neg(L)))
        if below is False and above is True:
            hit = s
            break
        if below is True or above is False:
            continue
        cands.append(s)
    blocks = {}
    for key in keys(rest):
        if hit is not None:
            L = segs[hit]
            v = a.blocks[key[:d] + (hit,) + key[d:]]
            if L is not ONE:
                v = subst(v, {mk("ax", d, L): add(i, neg(offs[hit]))})
        else:
            if not cands:
                raise IndexErr("index out of bounds")
            v = ZERO
            for s in cands:
                L = segs[s]
                w = a.blocks[key[:d] + (s,) + key[d:]]
                r = add(i, neg(offs[s]))
                if L is ONE:
                    g = T.eq0(r)
                else:
                    w = subst(w, {mk("ax", d, L): r})
                    g = mul(T.c_not(T.lt0(r)), T.lt0(add(r, neg(L))))
                v = add(v, mul(g, w))
        blocks[key] = reduce_key(v, key)
    return ArrC(rest, blocks, a.dtype)


def take_range(a, d, lo, hi):
    """Segments of axis d between lo and hi (lo<=hi assumed decided)."""
    a = split_axis(a, d, [lo, hi])
    offs = offsets(a.axes[d])
    sel = []
    for s, o in enumerate(offs):
        e = add(o, a.axes[d][s])
        if le_(lo, o) is True and le_(e, hi) is True:
            sel.append(s)
        elif le_(e, lo) is True or le_(hi, o) is True:
            continue
        else:
            raise Undecided(f"slice bounds {show(lo)}:{show(hi)} undecided")
    return select_segs(a, d, sel)


def select_segs(a, d, sel):
    axes = list(a.axes)
    axes[d] = tuple(a.axes[d][s] for s in sel)
    blocks = {}
    for k in keys(axes):
        blocks[k] = a.blocks[k[:d] + (sel[k[d]],) + k[d + 1:]]
    return ArrC(tuple(axes), blocks, a.dtype)


def clip_bound(v, n, default):
    """Python slice bound -> position in [0,n]."""
    if v is None:
        return default
    c = v.const
    if c is not None and c < 0 or c is None and T.sign_lt0(v) is True:
        v = add(v, n)
        if T.sign_lt0(v) is True:
            return ZERO
    if T.sign_lt0(add(n, neg(v))) is True:
        return n
    if T.sign_lt0(v) is None:
        raise Undecided("sign of slice bound")
    if le_(v, n) is None:
        raise Undecided(f"slice bound {show(v)} vs length {show(n)}")
    return v


def reverse(a, d):
    segs = a.axes[d]
    n = len(segs)
    b = select_segs(a, d, list(range(n - 1, -1, -1)))
    blocks = {}
    for k, v in b.blocks.items():
        L = b.axes[d][k[d]]
        if L is not ONE:
            v = subst(v, {mk("ax", d, L): add(add(L, neg(ONE)), neg(ax(d, L)))})
        blocks[k] = v
    return ArrC(b.axes, blocks, a.dtype)


def newaxis(a, d):
    axes = a.axes[:d] + ((ONE,),) + a.axes[d:]
    blocks = {}
    for k, v in a.blocks.items():
        mp = {}
        for dd in range(d, a.ndim):
            L = a.axes[dd][k[dd]]
            if L is not ONE:
                mp[mk("ax", dd, L)] = atom(fresh_idx(L))
        # two-step renaming to avoid clashes
        if mp:
            v = subst(v, mp)
            back = {}
            for dd in range(d, a.ndim):
                L = a.axes[dd][k[dd]]
                if L is not ONE:
                    f = mp[mk("ax", dd, L)].t[0][0][0][0]
                    back[f] = ax(dd + 1, L)
            v = subst(v, back)
        blocks[k[:d] + (0,) + k[d:]] = v
    return ArrC(axes, blocks, a.dtype)


def transpose(a, perm=None):
    nd = a.ndim
    perm = perm or tuple(range(nd - 1, -1, -1))
    axes = tuple(a.axes[p] for p in perm)
    blocks = {}
    for k, v in a.blocks.items():
        nk = tuple(k[p] for p in perm)
        tmp, back = {}, {}
        for newd, p in enumerate(perm):
            L = a.axes[p][k[p]]
            if L is not ONE:
                f = fresh_idx(L)
                tmp[mk("ax", p, L)] = atom(f)
                back[f] = ax(newd, L)
        blocks[nk] = subst(subst(v, tmp), back) if tmp else v
    return ArrC(axes, blocks, a.dtype)


def gather(a, d, idxs):
    """Fancy indexing along one axis with a list of positions."""
    parts = [elem_at(a, d, norm_index(i, total(a.axes[d]))) for i in idxs]
    return stack(parts, d, a)


def gather_arr(a, d, ia):
    """Fancy indexing of axis d by a 1-d index array."""
    if ia.ndim != 1:
        raise Undecided("index array with several dimensions")
    pieces = []
    for s, L in enumerate(ia.axes[0]):
        q = ia.blocks[(s,)]
        f = fresh_idx(L)
        q2 = subst(q, {mk("ax", 0, L): atom(f)}) if L is not ONE else q
        e = elem_at(a, d, norm_index(q2, total(a.axes[d])))
        e = newaxis(e, d)
        if L is not ONE:
            axes = list(e.axes)
            axes[d] = (L,)
            e = ArrC(tuple(axes), {k: subst(v, {f: ax(d, L)}) for k, v in e.blocks.items()}, e.dtype)
        pieces.append(e)
    if not pieces:
        axes = list(a.axes)
        axes[d] = ()
        return ArrC(tuple(axes), {}, a.dtype)
    return concat(pieces, d)


def gather_nd(a, dims, ias):
    """Indexing of several axes by index arrays that broadcast together."""
    ias = bcast(ias)
    S = ias[0].axes
    m = len(S)
    pos = dims[0] if list(dims) == list(range(dims[0], dims[0] + len(dims))) else 0
    blocks = {}
    axes = None
    for key in keys(S):
        mp, back = {}, {}
        for t, s in enumerate(key):
            L = S[t][s]
            if L is not ONE:
                f = fresh_idx(L)
                mp[mk("ax", t, L)] = atom(f)
                back[f] = ax(pos + t, L)
        e = a
        for d, ia in sorted(zip(dims, ias), key=lambda z: -z[0]):
            q = ia.blocks[key]
            e = elem_at(e, d, norm_index(subst(q, mp) if mp else q, total(a.axes[d])))
        for _ in range(m):
            e = newaxis(e, pos)
        ex = e.axes[:pos] + S + e.axes[pos + m:]
        if axes is not None and ex != axes:
            raise Undecided("index arrays over several segments")
        axes = ex
        for k, v in e.blocks.items():
            blocks[k[:pos] + key + k[pos + m:]] = subst(v, back) if back else v
    if axes is None:
        rest = [x for d, x in enumerate(a.axes) if d not in dims]
        axes = tuple(rest[:pos]) + S + tuple(rest[pos:])
    return ArrC(axes, blocks, a.dtype)


def grid(a, d):
    """Positions along axis d in the shape of a."""
    offs = offsets(a.axes[d])
    return ArrC(a.axes, {k: add(offs[k[d]], loc(d, a.axes[d][k[d]])) for k in a.blocks}, "int")


def true_positions(c):
    """Index arrays of a condition that is the same on every input (None: it depends)."""
    if any(s is not ONE for x in c.axes for s in x) or any(v.const is None for v in c.blocks.values()):
        return None
    hit = [k for k in sorted(c.blocks) if c.blocks[k] is ONE]
    return [from_list([T.num(k[d]) for k in hit], "int") for d in range(c.ndim)]


def from_list(ps, dtype="float"):
    return ArrC(((ONE,) * len(ps),), {(i,): p for i, p in enumerate(ps)}, dtype)


def stack(parts, d=0, like=None):
    if not parts:
        if like is None:
            return ArrC(((),), {}, "float")
        axes = like.axes[:d] + ((),) + like.axes[d + 1:]
        return ArrC(axes, {}, like.dtype)
    al = bcast(parts) if any(p.axes != parts[0].axes for p in parts) else parts
    for p in parts:
        if p.shape != parts[0].shape:
            raise ShapeError("all input arrays must have the same shape")
    return concat([newaxis(p, d) for p in al], d)


def concat(parts, d=0):
    dt = parts[0].dtype
    for p in parts[1:]:
        dt = promote(dt, p.dtype)
        if p.ndim != parts[0].ndim:
            raise ShapeError("all the input array dimensions must match")
    # align the other axes
    parts = list(parts)
    for o in range(parts[0].ndim):
        if o == d:
            continue
        for _ in range(2):
            for i in range(1, len(parts)):
                parts[0], parts[i] = align2(parts[0], o, parts[i], o)
    axes = list(parts[0].axes)
    segs = []
    blocks = {}
    for p in parts:
        base = len(segs)
        segs += list(p.axes[d])
        for k, v in p.blocks.items():
            blocks[k[:d] + (k[d] + base,) + k[d + 1:]] = v
    axes[d] = tuple(segs)
    return ArrC(tuple(axes), blocks, dt)


def promote(a, b):
    order = ["bool", "int", "float", "complex", "obj"]
    if a == b:
        return a
    if a not in order or b not in order:
        return "float"
    return order[max(order.index(a), order.index(b))]


# ------------------------------------------------------------ reductions

def sum_axis(a, d):
    """Sum over axis d."""
    rest = a.axes[:d] + a.axes[d + 1:]
    blocks = {}
    for key in keys(rest):
        tot = ZERO
        for s, L in enumerate(a.axes[d]):
            v = a.blocks[key[:d] + (s,) + key[d:]]
            if L is ONE:
                tot = add(tot, v)
            else:
                f = fresh_idx(L)
                tot = add(tot, make_sum(L, f, subst(v, {mk("ax", d, L): atom(f)})))
        mp = {}
        for dd in range(d, len(rest)):
            L = rest[dd][key[dd]]
            if L is not ONE:
                mp[mk("ax", dd + 1, L)] = ax(dd, L)
        blocks[key] = subst(tot, mp) if mp else tot
    return ArrC(rest, blocks, "int" if a.dtype == "bool" else a.dtype)


def sum_all(a):
    while a.ndim:
        a = sum_axis(a, a.ndim - 1)
    return a.blocks[()]


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul: scalar operand")
    if a.ndim > 2 or b.ndim > 2:
        raise Undecided("matmul of higher dimensions")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = newaxis(a, 0)
    if vb:
        b = newaxis(b, 1)
    a, b = align2(a, 1, b, 0)
    axes = (a.axes[0], b.axes[1])
    blocks = {}
    for i in range(len(axes[0])):
        for j in range(len(axes[1])):
            tot = ZERO
            for s, L in enumerate(a.axes[1]):
                x, y = a.blocks[(i, s)], b.blocks[(s, j)]
                if x is ZERO or y is ZERO:
                    continue
                if L is ONE:
                    tot = add(tot, mul(x, y))
                else:
                    f = fresh_idx(L)
                    x = subst(x, {mk("ax", 1, L): atom(f)})
                    y = subst(y, {mk("ax", 0, L): atom(f)})
                    tot = add(tot, make_sum(L, f, mul(x, y)))
            blocks[(i, j)] = tot
    r = ArrC(axes, blocks, promote(a.dtype, b.dtype))
    if vb:
        r = elem_at(r, 1, ZERO)
    if va:
        r = elem_at(r, 0, ZERO)
    return r


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return ew(mul, newaxis(a, 1), newaxis(b, 0), dtype=promote(a.dtype, b.dtype))


def diag(a):
    if a.ndim == 1:
        axes = (a.axes[0], a.axes[0])
        blocks = {}
        for (i, j) in keys(axes):
            if i != j:
                blocks[(i, j)] = ZERO
            else:
                L = axes[0][i]
                v = a.blocks[(i,)]
                blocks[(i, j)] = v if L is ONE else mul(T.eq0(add(ax(0, L), neg(ax(1, L)))), v)
        return ArrC(axes, blocks, a.dtype)
    if a.ndim == 2:
        a1, _ = align2(a, 0, ArrC((a.axes[1],), {}, "x"), 0) if a.axes[0] != a.axes[1] else (a, None)
        if a1.axes[0] != a1.axes[1]:
            raise Undecided("diagonal of a differently segmented matrix")
        blocks = {}
        for s, L in enumerate(a1.axes[0]):
            v = a1.blocks[(s, s)]
            if L is not ONE:
                v = subst(v, {mk("ax", 1, L): ax(0, L)})
            blocks[(s,)] = v
        return ArrC((a1.axes[0],), blocks, a.dtype)
    raise ShapeError("Input must be 1- or 2-d.")


def block_diag(mats):
    mats = [m if m.ndim == 2 else newaxis(m if m.ndim else newaxis(m, 0), 0) for m in mats]
    s0 = [x for m in mats for x in m.axes[0]]
    s1 = [x for m in mats for x in m.axes[1]]
    blocks = {}
    o0 = o1 = 0
    for m in mats:
        for (i, j), v in m.blocks.items():
            blocks[(o0 + i, o1 + j)] = v
        o0 += len(m.axes[0])
        o1 += len(m.axes[1])
    for k in keys((tuple(s0), tuple(s1))):
        blocks.setdefault(k, ZERO)
    return ArrC((tuple(s0), tuple(s1)), blocks, "float")


# ------------------------------------------------------------ reshape

def ravel(a):
    if a.ndim == 1:
        return a
    if a.ndim == 0:
        return newaxis(a, 0)
    while a.ndim > 1:
        a = merge_axes(a, 0)
    return a


def merge_axes(a, d):
    """Merge axes d and d+1 (row major)."""
    A, B = a.axes[d], a.axes[d + 1]
    segs = []
    src = []
    if len(B) == 1 and B[0] is ONE:
        segs = list(A)
        src = [(i, 0, "a") for i in range(len(A))]
    else:
        for i, L in enumerate(A):
            if L is ONE:
                for j, M in enumerate(B):
                    segs.append(M)
                    src.append((i, j, "b"))
            else:
                if len(B) == 1:
                    segs.append(mul(L, B[0]))
                    src.append((i, 0, "ab"))
                else:
                    raise Undecided("flattening a segmented inner axis")
    axes = a.axes[:d] + (tuple(segs),) + a.axes[d + 2:]
    blocks = {}
    for k in keys(axes):
        i, j, how = src[k[d]]
        ok = k[:d] + (i, j) + k[d + 1:]
        v = a.blocks[ok]
        L, M = A[i], B[j]
        tmp = {}
        N = segs[k[d]]
        if how == "ab":
            f = fresh_idx(N)
            tmp[mk("ax", d, L)] = T.idiv(atom(f), M)
            tmp[mk("ax", d + 1, M)] = T.imod(atom(f), M)
            back = {f: ax(d, N)}
        elif how == "b":
            f = fresh_idx(N)
            if M is not ONE:
                tmp[mk("ax", d + 1, M)] = atom(f)
            back = {f: ax(d, N)}
        else:
            f = fresh_idx(N)
            if L is not ONE:
                tmp[mk("ax", d, L)] = atom(f)
            back = {f: ax(d, N)}
        # higher axes shift down
        for dd in range(d + 2, a.ndim):
            LL = a.axes[dd][ok[dd]]
            if LL is not ONE:
                g = fresh_idx(LL)
                tmp[mk("ax", dd, LL)] = atom(g)
                back[g] = ax(dd - 1, LL)
        v = subst(v, tmp)
        blocks[k] = subst(v, back)
    return ArrC(tuple(axes), blocks, a.dtype)


def poly_div(p, q):
    """Exact quotient or None."""
    if q is ONE:
        return p
    if q.const is not None and q.const != 0:
        return scale(p, 1 / q.const)
    A, r = T._divsplit(p, q)
    if r is ZERO:
        return A
    # try p == c*q
    if len(q.t) > 1:
        m0, c0 = q.t[0]
        for m, c in p.t:
            if m == m0:
                k = c / c0
                if scale(q, k) is p:
                    return num(k)
        # p = q*m for a monomial factor
        for m, c in p.t:
            d = dict(m)
            ok = all(d.get(a, 0) >= e for a, e in m0)
            if ok:
                f = T.mul(_single(m, c), T.power(_single(m0, c0), -1))
                if mul(q, f) is p:
                    return f
    return None


def _single(m, c):
    return scale(T.mono_poly(dict(m)), c)


def reshape(a, shape):
    shape = list(shape)
    tot = ONE
    for s in a.shape:
        tot = mul(tot, s)
    unk = [i for i, s in enumerate(shape) if s.const == -1]
    if unk:
        if len(unk) > 1:
            raise ShapeError("can only specify one unknown dimension")
        known = ONE
        for i, s in enumerate(shape):
            if i != unk[0]:
                known = mul(known, s)
        q = poly_div(tot, known)
        if q is None:
            raise Undecided("unknown dimension")
        shape[unk[0]] = q
    if tuple(shape) == a.shape:
        return a
    prod = ONE
    for s in shape:
        prod = mul(prod, s)
    if prod is not tot:
        if T.sign_eq0(add(prod, neg(tot))) is None and False:
            raise Undecided("reshape size")
        raise ShapeError(f"cannot reshape array of size {show(tot)} into ({', '.join(map(show, shape))})")
    a = ravel(a)
    if len(shape) == 1:
        return a
    if len(shape) == 0:
        return elem_at(a, 0, ZERO)
    if len(shape) > 2:
        first = shape[0]
        rest = ONE
        for s in shape[1:]:
            rest = mul(rest, s)
        b = reshape(a, [first, rest])
        raise Undecided("reshape to more than two dimensions")
    R, C = shape
    if R is ONE:
        return newaxis(a, 0)
    if C is ONE:
        return newaxis(a, 1)
    c = R.const
    if c is not None:
        rows = []
        for i in range(int(c)):
            lo = scale(C, Fr(i))
            hi = scale(C, Fr(i + 1))
            rows.append(take_range(a, 0, lo, hi))
        return stack(rows, 0)
    cc = C.const
    if len(a.axes[0]) != 1:
        raise Undecided("reshape of a segmented array")
    N = a.axes[0][0]
    v = a.blocks[(0,)]
    if cc is not None and cc <= 24:
        blocks = {}
        axes = ((R,), (ONE,) * int(cc))
        for j in range(int(cc)):
            blocks[(0, j)] = subst(v, {mk("ax", 0, N): add(mul(ax(0, R), C), num(j))})
        return ArrC(axes, blocks, a.dtype)
    f = fresh_idx(R)
    g = fresh_idx(C)
    v = subst(v, {mk("ax", 0, N): add(mul(atom(f), C), atom(g))})
    v = subst(v, {f: ax(0, R), g: ax(1, C)})
    return ArrC(((R,), (C,)), {(0, 0): v}, a.dtype)


# ------------------------------------------------------------ assignment

def assign_range(a, d, lo, hi, fvals):
    raise NotImplementedError


def where_region(a, conds, value):
    """New array: conds (list of per-axis ('r',lo,hi)/('i',pos)/('all',)) region := value
    value is an ArrC broadcastable to the region shape."""
    # split so that the region consists of whole segments
    for d, c in enumerate(conds):
        if c[0] == "r":
            a = split_axis(a, d, [c[1], c[2]])
        elif c[0] == "i" and _locatable(a, d, c[1]):
            a = split_axis(a, d, [c[1], add(c[1], ONE)])
    sel = []
    sym_axes = {}
    for d, c in enumerate(conds):
        offs = offsets(a.axes[d])
        if c[0] == "all":
            sel.append(list(range(len(a.axes[d]))))
        elif c[0] == "r":
            s = []
            for i, o in enumerate(offs):
                e = add(o, a.axes[d][i])
                if le_(c[1], o) is True and le_(e, c[2]) is True:
                    s.append(i)
                elif le_(e, c[1]) is True or le_(c[2], o) is True:
                    continue
                else:
                    raise Undecided("slice assignment bounds")
            sel.append(s)
        else:
            pos = c[1]
            tot = total(a.axes[d])
            if T.sign_lt0(add(tot, neg(add(pos, ONE)))) is True or T.sign_lt0(pos) is True:
                raise IndexErr(f"index {show(pos)} is out of bounds")
            hit = [i for i, o in enumerate(offs) if o is pos and a.axes[d][i] is ONE]
            if hit:
                sel.append(hit)
            else:
                s = []
                for i, o in enumerate(offs):
                    r = add(pos, neg(o))
                    if T.sign_lt0(r) is True or T.sign_lt0(add(r, neg(a.axes[d][i]))) is False:
                        continue
                    s.append(i)
                sel.append(s)
                sym_axes[d] = pos
    # value aligned with the region
    raxes = []
    for d, c in enumerate(conds):
        if c[0] == "i":
            continue
        raxes.append(tuple(a.axes[d][s] for s in sel[d]))
    reg = ArrC(tuple(raxes), {k: ZERO for k in keys(raxes)}, "float")
    v, reg2 = bcast([value, reg]) if value.ndim <= reg.ndim else (None, None)
    if v is None:
        # numpy allows leading ones
        while value.ndim > reg.ndim and len(value.axes[0]) == 1 and value.axes[0][0] is ONE:
            value = elem_at(value, 0, ZERO)
        if value.ndim > reg.ndim:
            raise ShapeError("could not broadcast input array")
        v, reg2 = bcast([value, reg])
    if v.shape != reg.shape:
        raise ShapeError("could not broadcast input array from shape")
    if tuple(v.axes) != tuple(raxes):
        # value has finer segments: refine a as well
        pts = {}
        rd = 0
        for d, c in enumerate(conds):
            if c[0] == "i":
                continue
            start = ZERO
            if c[0] == "r":
                start = c[1]
            pts[d] = [add(start, b) for b in bounds(v.axes[rd])[:-1]]
            rd += 1
        b = a
        for d, p in pts.items():
            b = split_axis(b, d, p)
        if b.axes == a.axes:
            raise Undecided("segments of assigned value")
        return where_region(b, conds, value)
    blocks = dict(a.blocks)
    for k in keys([tuple(range(len(s))) for s in sel]):
        key = tuple(sel[d][x] for d, x in enumerate(k))
        vk = tuple(k[d] for d, c in enumerate(conds) if c[0] != "i")
        val = v.blocks[vk]
        # rename value axes to array axes
        tmp, back = {}, {}
        rd = 0
        for d, c in enumerate(conds):
            if c[0] == "i":
                continue
            L = a.axes[d][key[d]]
            if L is not ONE and rd != d:
                f = fresh_idx(L)
                tmp[mk("ax", rd, L)] = atom(f)
                back[f] = ax(d, L)
            rd += 1
        if tmp:
            val = subst(subst(val, tmp), back)
        g = ONE
        for d, pos in sym_axes.items():
            offs = offsets(a.axes[d])
            L = a.axes[d][key[d]]
            g = mul(g, T.eq0(add(add(offs[key[d]], loc(d, L)), neg(pos))))
        blocks[key] = val if g is ONE else T.ite(g, val, a.blocks[key])
    return ArrC(a.axes, blocks, a.dtype)


def _locatable(a, d, pos):
    try:
        split_axis(a, d, [pos, add(pos, ONE)])
    except Undecided:
        return False
    # only constants or segment boundaries are split off
    if pos.const is not None:
        return True
    offs = offsets(a.axes[d])
    return any(o is pos for o in offs) or any(add(o, neg(ONE)) is pos for o in bounds(a.axes[d]))


def compare_arr(a, b, gate=ONE, seed=1, assume=()):
    """'equal' / 'different' / 'unknown' with a detail."""
    if a.ndim != b.ndim:
        return "different", f"{a.ndim} dimensions instead of {b.ndim}"
    for d in range(a.ndim):
        ta, tb = total(a.axes[d]), total(b.axes[d])
        if ta is not tb:
            r, w = compare(ta, tb, gate, seed, assume=assume)
            if r == "different":
                return "different", f"length {show(ta)} instead of {show(tb)} on axis {d}"
            return "unknown", "lengths"
    try:
        for d in range(a.ndim):
            a, b = align2(a, d, b, d)
    except (Undecided, ShapeError) as e:
        return "unknown", str(e)
    unk = None
    for k in a.blocks:
        if a.blocks[k] is b.blocks[k]:
            continue
        r, w = compare(a.blocks[k], b.blocks[k], gate, seed, assume=assume)
        if r == "different":
            return r, (a.blocks[k], b.blocks[k], w)
        if r == "unknown":
            unk = (a.blocks[k], b.blocks[k], w)
    if unk:
        return "unknown", unk
    return "equal", None
