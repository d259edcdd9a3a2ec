"""Canonical symbolic expressions (the value domain of the analysis).

A scalar is a polynomial over interned atoms with rational coefficients and
rational exponents.  Array elements, sums over symbolic index ranges, opaque
function results and indicators (0/1 valued conditions) are atoms.  Equal
normal forms are the same object.
"""
from fractions import Fraction as Fr
from itertools import permutations
import math
import random
import zlib


class Undecided(Exception):
    """The construct is outside of what the domain models."""


class Interval:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


# ---------------------------------------------------------------- atoms

_atoms = {}
_polys = {}
SYM = {}      # name -> dict(lo, hi, int, zg, kind)


class Atom:
    __slots__ = ("kind", "args", "id", "leaves", "lvl", "_iv")

    def __repr__(self):
        return show_atom(self)


def _collect(args):
    leaves = frozenset()
    lvl = 0
    for a in args:
        if isinstance(a, (Poly, Atom)):
            leaves |= a.leaves
            lvl = max(lvl, a.lvl)
        elif isinstance(a, tuple):
            l2, v2 = _collect(a)
            leaves |= l2
            lvl = max(lvl, v2)
    return leaves, lvl


def mk(kind, *args):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.args, a.id = kind, args, len(_atoms)
    leaves, lvl = _collect(args)
    if kind in ("sym", "idx", "elem"):
        leaves = leaves | {a}
    if kind == "ax":
        leaves = leaves | {a}
    if kind == "bnd":
        lvl = max(lvl, args[0])
    a.leaves, a.lvl, a._iv = leaves, lvl, None
    _atoms[key] = a
    return a


INDS = ("lt", "eq", "b", "any")


class Poly:
    __slots__ = ("t", "id", "leaves", "lvl", "_iv")

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(P(o), -1))

    def __rtruediv__(self, o):
        return mul(P(o), power(self, -1))

    def __neg__(self):
        return neg(self)

    def __pow__(self, e):
        return power(self, e)

    @property
    def const(self):
        """Value if constant, else None."""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None


def _poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=lambda mc: _mkey(mc[0]))
    items = tuple(items)
    p = _polys.get(items)
    if p is None:
        p = Poly()
        p.t = items
        p.id = len(_polys)
        leaves = frozenset()
        lvl = 0
        for m, _ in items:
            for a, _e in m:
                leaves |= a.leaves
                lvl = max(lvl, a.lvl)
        p.leaves, p.lvl, p._iv = leaves, lvl, None
        _polys[items] = p
    return p


_mkeys = {}


def _mkey(m):
    k = _mkeys.get(m)
    if k is None:
        k = _mkeys[m] = tuple((a.id, e) for a, e in m)
    return k


ZERO = _poly({})
ONE = _poly({(): Fr(1)})


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        f = Fr(v)
    elif isinstance(v, Fr):
        f = v
    elif isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return atom(mk("sym", "nan" if v != v else ("inf" if v > 0 else "-inf")))
        f = Fr(repr(v))
    else:
        raise TypeError(v)
    return _poly({(): f})


def P(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Atom):
        return atom(v)
    return num(v)


def atom(a):
    return _poly({((a, 1),): Fr(1)})


def declare(name, lo=None, hi=None, integer=False, zg=False, finite=True):
    SYM[name] = dict(lo=None if lo is None else Fr(repr(lo)) if isinstance(lo, float) else Fr(lo),
                     hi=None if hi is None else Fr(repr(hi)) if isinstance(hi, float) else Fr(hi),
                     int=integer, zg=zg)


def sym(name, **kw):
    if kw or name not in SYM:
        declare(name, **kw)
    return atom(mk("sym", name))


_uid = [0]


def fresh_idx(n):
    _uid[0] += 1
    return mk("idx", _uid[0], P(n))


def reset_uid():
    _uid[0] = 0


# ---------------------------------------------------------------- ring

def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + c
    return _poly(d)


def _acc(d, p, k=1):
    """Add k times p to the monomials collected in d."""
    if k == 1:
        for m, c in p.t:
            d[m] = d.get(m, 0) + c
    else:
        for m, c in p.t:
            d[m] = d.get(m, 0) + c * k


def neg(p):
    return _poly({m: -c for m, c in p.t})


def scale(p, k):
    if k == 1:
        return p
    return _poly({m: c * k for m, c in p.t})


_mulcache = {}


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    key = (p.id, q.id) if p.id <= q.id else (q.id, p.id)
    r = _mulcache.get(key)
    if r is not None:
        return r
    if len(p.t) * len(q.t) > 60000:
        raise Undecided("expression too large")
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            if not m1:
                d[m2] = d.get(m2, 0) + c1 * c2
                continue
            if not m2:
                d[m1] = d.get(m1, 0) + c1 * c2
                continue
            r = _mono_mul(m1, m2)
            if type(r) is tuple:
                d[r] = d.get(r, 0) + c1 * c2
            else:
                _acc(d, r, c1 * c2)
    r = _poly(d)
    _mulcache[key] = r
    return r


def plain_abs(a):
    """Absolute value of a short expression without conditions."""
    if a.kind != "fn" or a.args[0] != "abs":
        return False
    p = a.args[1]
    return len(p.t) <= 6 and not has_ind(p) and not has_bins(p)


def _mono_mul(m1, m2):
    """Product of two monomials: a monomial tuple or a polynomial."""
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            if a.kind in INDS:
                d[a] = max(d[a], e) if e > 0 and d[a] > 0 else d[a] + e
                continue
            ne = d[a] + e
            if ne == 0:
                del d[a]
            else:
                if isinstance(ne, Fr) and ne.denominator == 1:
                    ne = int(ne)
                d[a] = ne
                if a.kind in ("base", "cbase") and (ne > 0 or a.kind == "cbase"):
                    special = True
                elif (ne >= 2 or ne <= -2) and plain_abs(a):
                    special = True
        else:
            d[a] = e
    inds = [a for a in d if a.kind in ("eq", "lt")]
    if not special and not inds:
        return tuple(sorted(d.items(), key=lambda ae: ae[0].id))
    return _norm_mono(d, inds)


def _norm_mono(d, inds):
    # lt/eq of the same polynomial exclude each other
    eqs = [a for a in inds if a.kind == "eq"]
    for a in inds:
        if a.kind == "lt" and mk("eq", a.args[0]) in d:
            return ZERO
    # expand bases with positive integer exponent
    for a in list(d):
        if a.kind == "base" and d[a] >= 1:
            e = d.pop(a)
            k = int(e // 1)
            rest = e - k
            if rest:
                d[a] = rest
            p = power(a.args[0], k)
            return mul(mono_poly(d), p)
        if a.kind == "cbase" and not (0 < d[a] < 1):
            e = d.pop(a)
            return mul(mono_poly(d), cpow(a.args[0], e))
        # |p|^2 = p^2
        if isinstance(d[a], int) and (d[a] >= 2 or d[a] <= -2) and plain_abs(a):
            e = d.pop(a)
            k = e - e % 2 if e > 0 else e + (-e) % 2
            if e - k:
                d[a] = e - k
            return mul(mono_poly(d), power(a.args[1], k))
    for a in eqs:
        r = _eq_solution(a)
        if r is None:
            continue
        x, q = r
        changed = False
        rest = {}
        out = ONE
        for b, e in d.items():
            if b is a or x not in b.leaves:
                rest[b] = e
                continue
            if e < 0 and (b is x) and q is ZERO:
                rest[b] = e
                continue
            try:
                nb = subst(atom(b), {x: q})
                ne = power(nb, e)
            except (ZeroDivisionError, Undecided):
                rest[b] = e
                continue
            out = mul(out, ne)
            changed = True
            if out is ZERO:
                return ZERO
        if changed:
            return mul(mono_poly(rest), out)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def mono_poly(d):
    if not isinstance(d, dict):
        d = dict(d)
    inds = [a for a in d if a.kind in ("eq", "lt")]
    if any(a.kind in ("base", "cbase") or d[a] not in (1, -1) and plain_abs(a) for a in d) or inds:
        r = _norm_mono(dict(d), inds)
        if isinstance(r, Poly):
            return r
        return _poly({r: Fr(1)})
    return _poly({tuple(sorted(d.items(), key=lambda ae: ae[0].id)): Fr(1)})


_PRIO = {"bnd": 5, "idx": 4, "ax": 4, "elem": 2, "sym": 1}


def _eq_solution(a):
    """For eq(p), p linear with unit coefficient in a leaf atom x: (x, q) with x=q."""
    p = a.args[0]
    best = None
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind in _PRIO:
            x = m[0][0]
            if x.kind == "sym" and SYM.get(x.args[0], {}).get("int"):
                continue
            if sum(1 for m2, _ in p.t for b, _e in m2 if x in b.leaves or b is x) != 1:
                continue
            k = (_PRIO[x.kind], x.id)
            if best is None or k > best[0]:
                best = (k, x, c)
    if best is None:
        return None
    _, x, c = best
    rest = _poly({m: cc for m, cc in p.t if m != ((x, 1),)})
    return x, scale(rest, Fr(-1) / c)


# ---------------------------------------------------------------- sign / bounds

def _iv_atom(a):
    k = a.kind
    if k == "sym" or k == "elem":
        info = SYM.get(a.args[0])
        if info:
            return info["lo"], info["hi"]
        return None, None
    if k == "idx":
        hi = interval(a.args[1])[1]
        return Fr(0), None if hi is None else max(hi - 1, Fr(0))
    if k in ("ax", "bnd"):
        hi = interval(a.args[1])[1]
        return Fr(0), None if hi is None else max(hi - 1, Fr(0))
    if k in INDS:
        return Fr(0), Fr(1)
    if k == "base":
        return interval(a.args[0])
    if k == "cbase":
        return a.args[0], a.args[0]
    if k == "msum":
        lo, hi = interval(_poly({a.args[1]: Fr(1)}))
        if lo is not None and lo >= 0:
            if lo > 0:
                k = Fr(1)
                for b in a.args[0]:
                    n = interval(b.args[1])[0]
                    k = k * n if n is not None and n >= 1 else Fr(0)
                return lo * k, None
            return Fr(0), None
        if hi is not None and hi <= 0:
            return None, Fr(0)
        return None, None
    if k == "fn":
        f = a.args[0]
        if f in ("abs", "exp", "pois", "InBin"):
            return Fr(0), None
        if f == "mod":
            return Fr(0), None
        if f in ("div", "rint", "floor", "ceil"):
            lo, hi = interval(a.args[1]) if isinstance(a.args[1], Poly) else (None, None)
            if lo is not None and lo >= 0:
                return Fr(0), None
        if f == "sqrtlike":
            return Fr(0), None
        if f == "sf":
            return Fr(0), Fr(1)
    return None, None


def _ivmul(x, y):
    (a, b), (c, d) = x, y
    if a == 0 and b == 0 or c == 0 and d == 0:
        return Fr(0), Fr(0)

    def isneginf(v, lowside):
        return v is None
    cands = []
    inf = float("inf")
    A = -inf if a is None else a
    B = inf if b is None else b
    C = -inf if c is None else c
    D = inf if d is None else d
    for u in (A, B):
        for v in (C, D):
            if u == 0 or v == 0:
                cands.append(Fr(0))
            elif isinstance(u, float) or isinstance(v, float):
                s = (1 if u > 0 else -1) * (1 if v > 0 else -1)
                cands.append(s * inf)
            else:
                cands.append(u * v)
    lo, hi = min(cands), max(cands)
    return (None if isinstance(lo, float) else lo), (None if isinstance(hi, float) else hi)


def interval_atom(a):
    if a._iv is None:
        a._iv = _iv_atom(a)
    return a._iv


def _ivpow(iv, e):
    lo, hi = iv
    if e == 1:
        return iv
    if isinstance(e, Fr) and e.denominator != 1 or e < 0:
        if lo is not None and lo >= 0:
            if e < 0:
                # decreasing
                nlo = Fr(0)
                nhi = None
                if lo > 0 and isinstance(e, int):
                    nhi = lo ** e
                if hi is not None and hi > 0 and isinstance(e, int):
                    nlo = hi ** e
                return nlo, nhi
            return (min(lo, Fr(1)) ** math.ceil(e) if lo > 0 else Fr(0)), None
        if isinstance(e, int) and e % 2 == 0:
            return Fr(0), None
        if isinstance(e, int) and hi is not None and hi <= 0:
            return None, Fr(0)
        if isinstance(e, Fr):
            return Fr(0), None       # real roots are non-negative
        return None, None
    if e % 2 == 0:
        if lo is not None and lo >= 0:
            return lo ** e, None if hi is None else hi ** e
        return Fr(0), None
    return (None if lo is None else lo ** e), (None if hi is None else hi ** e)


def interval(p):
    if p._iv is not None:
        return p._iv
    lo, hi = Fr(0), Fr(0)
    for m, c in p.t:
        iv = (Fr(1), Fr(1))
        for a, e in m:
            iv = _ivmul(iv, _ivpow(interval_atom(a), e))
        iv = _ivmul(iv, (c, c))
        lo = None if lo is None or iv[0] is None else lo + iv[0]
        hi = None if hi is None or iv[1] is None else hi + iv[1]
    p._iv = (lo, hi)
    return p._iv


def _idx_extreme(p, want_max):
    """Replace index atoms by the bound that maximises (minimises) p."""
    for _ in range(6):
        target = None
        for a in sorted(p.leaves, key=lambda x: -x.id):
            if a.kind in ("idx", "ax"):
                target = a
                break
        if target is None:
            # bound variables
            for m, _c in p.t:
                for a, _e in m:
                    if a.kind == "bnd":
                        target = a
        if target is None:
            return p
        coef = ZERO
        for m, c in p.t:
            for a, e in m:
                if a is target:
                    if e != 1:
                        return None
                    coef = add(coef, _poly({tuple(x for x in m if x[0] is not target): c}))
                elif target in a.leaves:
                    return None
        lo, hi = interval(coef)
        if lo is not None and lo >= 0:
            up = want_max
        elif hi is not None and hi <= 0:
            up = not want_max
        else:
            return None
        n = target.args[1]
        v = add(n, num(-1)) if up else ZERO
        p = subst(p, {target: v})
    return None


def sign_lt0(p):
    """True / False if p<0 is decided, else None."""
    c = p.const
    if c is not None:
        return c < 0
    lo, hi = interval(p)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    q = _idx_extreme(p, True)
    if q is not None and q is not p:
        hi = interval(q)[1]
        if hi is not None and hi < 0:
            return True
    q = _idx_extreme(p, False)
    if q is not None and q is not p:
        lo = interval(q)[0]
        if lo is not None and lo >= 0:
            return False
    # common factor of definite sign
    return None


def sign_eq0(p):
    c = p.const
    if c is not None:
        return c == 0
    lo, hi = interval(p)
    if lo is not None and lo > 0 or hi is not None and hi < 0:
        return False
    if len(p.t) == 1:
        # monomial: product of factors that are never zero
        if all(_nonzero_atom(a) for a, e in p.t[0][0]):
            return False
    elif _definite(p):
        return False
    q = _idx_extreme(p, True)
    if q is not None:
        hi = interval(q)[1]
        if hi is not None and hi < 0:
            return False
    q = _idx_extreme(p, False)
    if q is not None:
        lo = interval(q)[0]
        if lo is not None and lo > 0:
            return False
    return None


def _definite(p):
    """Sum of terms of one sign, one of them never zero."""
    sg = p.t[0][1] > 0
    strict = False
    for m, c in p.t:
        if (c > 0) != sg:
            return False
        pos = True
        for a, e in m:
            lo, hi = interval_atom(a)
            if isinstance(e, int) and e % 2 == 0 or isinstance(e, Fr) and e.denominator != 1:
                pos = pos and _nonzero_atom(a)
                continue
            if lo is None or lo < 0:
                return False
            if lo == 0:
                pos = False
        strict = strict or pos
    return strict


def _nonzero_atom(a):
    lo, hi = interval_atom(a)
    return lo is not None and lo > 0 or hi is not None and hi < 0 or a.kind == "base" and sign_eq0(a.args[0]) is False


def is_nonneg(p):
    lo, _ = interval(p)
    if lo is not None and lo >= 0:
        return True
    return sign_lt0(p) is False


# ---------------------------------------------------------------- conditions

def is_cond(p):
    """Polynomials that are 0/1 valued by construction are not tracked; callers know."""
    return True


def has_ind(p):
    return any(a.kind in INDS for m, _ in p.t for a, _e in m)


def ind_atoms(p):
    s = []
    for m, _ in p.t:
        for a, _e in m:
            if a.kind in INDS and a not in s:
                s.append(a)
    return s


def shannon(p, f, limit=4):
    """f lifted over the indicator atoms of p (None if too many)."""
    at = ind_atoms(p)
    if not at:
        return f(p)
    if len(at) > limit:
        return None
    a = at[0]
    p1, p0 = cofactor(p, a, 1), cofactor(p, a, 0)
    r1 = shannon(p1, f, limit) if mul(atom(a), ONE) is not ZERO else ZERO
    r0 = shannon(p0, f, limit)
    if r1 is None or r0 is None:
        return None
    A = atom(a)
    return add(mul(A, r1), mul(add(ONE, neg(A)), r0))


def cofactor(p, a, v):
    d = {}
    excl = None
    if v == 1 and a.kind in ("lt", "eq"):
        excl = mk("eq" if a.kind == "lt" else "lt", a.args[0])
    ch = False
    for m, c in p.t:
        if any(b is a for b, _ in m):
            ch = True
            if v == 0:
                continue
            m = tuple(x for x in m if x[0] is not a)
        if excl is not None and any(b is excl for b, _ in m):
            ch = True
            continue
        d[m] = d.get(m, 0) + c
    return _poly(d) if ch else p


def lt0(p):
    """Indicator of p < 0."""
    p = P(p)
    if has_ind(p):
        r = shannon(p, lt0)
        if r is not None:
            return r
    s = sign_lt0(p)
    if s is not None:
        return ONE if s else ZERO
    r = _zg(p, "lt")
    if r is not None:
        return r
    r = _int_lt0(p)
    if r is not None:
        return r
    q, sgn = _orient(p)
    if q.const is not None:
        return lt0(scale(q, sgn))
    if sgn > 0:
        # q<0, if q>=0 possible 0 -> ok
        return atom(mk("lt", q)) if sign_lt0(q) is None else (ONE if sign_lt0(q) else ZERO)
    # p = -q : q > 0  ==  1 - [q<0] - [q==0]
    return add(ONE, neg(add(lt0(q), eq0(q))))


def eq0(p):
    p = P(p)
    if has_ind(p):
        r = shannon(p, eq0)
        if r is not None:
            return r
    s = sign_eq0(p)
    if s is not None:
        return ONE if s else ZERO
    r = _zg(p, "eq")
    if r is not None:
        return r
    q, _ = _orient(p)
    if q.const is not None:
        return ONE if q.const == 0 else ZERO
    if len(q.t) == 1:
        # product is zero iff one factor is zero
        fs = [a for a, e in q.t[0][0] if not _nonzero_atom(a)]
        if any(e <= 0 for a, e in q.t[0][0] if a in fs):
            fs2 = [a for a, e in q.t[0][0] if e > 0 and not _nonzero_atom(a)]
            fs = fs2 or fs
        if len(fs) == 1:
            a = fs[0]
            if a.kind == "base":
                return eq0(a.args[0])
            if a.kind == "msum":
                return atom(mk("eq", atom(a)))
            return atom(mk("eq", atom(a)))
        if len(fs) > 1:
            r = ONE
            for a in fs:
                r = mul(r, add(ONE, neg(eq0(atom(a)))))
            return add(ONE, neg(r))
    return atom(mk("eq", q))


def _int_lt0(p):
    """q + c < 0 for an integer q and a constant c that is no integer."""
    c = ZERO
    for m, co in p.t:
        if not m:
            c = num(co)
    if c.const is None or c.const.denominator == 1:
        return None
    q = add(p, neg(c))
    if not is_int(q):
        return None
    f = c.const.__floor__()
    if f == -1 and is_nonneg(q):
        return eq0(q)
    return lt0(add(q, num(f)))


def _zg(p, op):
    """p = k*a - c for a zero-gap leaf (0 or >= 1e-90), 0<c<=1e-90."""
    if len(p.t) != 2:
        return None
    a = c = k = None
    for m, co in p.t:
        if not m:
            c = co
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("sym", "elem"):
            a, k = m[0][0], co
    if a is None or c is None:
        return None
    info = SYM.get(a.args[0])
    if not info or not info["zg"]:
        return None
    r = -c / k
    if not (0 < r <= Fr(1, 10 ** 90)):
        return None
    if op == "eq":
        return ZERO
    E = eq0(atom(a))
    return E if k > 0 else add(ONE, neg(E))


def _orient(p):
    """(q, sign): q = canonical positive multiple of +-p."""
    if not p.t:
        return p, 1
    # divide by common monomial factors of definite sign
    sgn = 1
    common = None
    for m, _ in p.t:
        d = {a: e for a, e in m}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    if common and len(p.t) >= 1:
        inv = {}
        for a, e in common.items():
            lo, hi = interval_atom(a)
            if e == 0:
                continue
            if lo is not None and lo > 0:
                inv[a] = -e
            elif e < 0 and lo is not None and lo >= 0:
                inv[a] = -e
        if inv:
            p = _divmono(p, {a: -x for a, x in inv.items()})
    lead = p.t[0][1]
    if len(p.t) > 1 and (p.lvl or any(x.kind in ("idx", "ax") for x in p.leaves)):
        # the orientation may not change under renaming of indices
        best = None
        for m, c in p.t:
            if m:
                h = _skel_mono(m)
                if best is None or h < best:
                    best, lead = h, c
    else:
        for m, c in p.t:
            if m:
                lead = c
                break
    k = abs(lead)
    s = 1 if lead > 0 else -1
    return scale(p, Fr(s) / k), s * sgn


_skels = {}


def _skel_arg(x):
    if isinstance(x, Atom):
        return _skel_atom(x)
    if isinstance(x, Poly):
        return tuple(sorted((_skel_mono(m), str(c)) for m, c in x.t))
    if isinstance(x, tuple):
        return tuple(_skel_arg(y) for y in x)
    return str(x)


def _skel_atom(a):
    h = _skels.get(a)
    if h is None:
        if a.kind in ("idx", "ax", "bnd"):
            h = 0
        else:
            h = zlib.crc32(repr((a.kind,) + tuple(_skel_arg(x) for x in a.args)).encode())
        _skels[a] = h
    return h


def _skel_mono(m):
    """Structure of a monomial, without the names of the indices."""
    h = _skels.get(m)
    if h is None:
        h = _skels[m] = zlib.crc32(repr(sorted((_skel_atom(a), str(e)) for a, e in m)).encode())
    return h


def lt(a, b):
    return lt0(add(P(a), neg(P(b))))


def le(a, b):
    return add(ONE, neg(lt(b, a)))


def eq(a, b):
    return eq0(add(P(a), neg(P(b))))


def c_not(c):
    return add(ONE, neg(c))


def c_and(a, b):
    return mul(a, b)


def c_or(a, b):
    return add(add(a, b), neg(mul(a, b)))


def ite(c, a, b):
    return add(mul(c, a), mul(c_not(c), b))


def bsym(name, *args):
    return atom(mk("b", name, *args))


def any_of(n, idx, c):
    """Exists idx < n with c."""
    if idx not in c.leaves:
        return c if sign_lt0(neg(n)) else mul(c, c_not(eq0(n)))
    if len(c.t) == 1 and c.t[0][1] == 1 and all(a.kind == "eq" for a, _ in c.t[0][0]):
        # at most one index satisfies an equality
        for a, _ in c.t[0][0]:
            if a.kind == "eq" and idx in a.leaves:
                r = make_sum(n, idx, c)
                return r
    return atom(mk("any", mk_arr(((n,),), {(0,): subst(c, {idx: atom(mk("ax", 0, n))})})))


# ---------------------------------------------------------------- powers, functions

def _isqrt(fr):
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return Fr(a, b)
    return None


def cpow(c, e):
    """Constant c (Fraction) to a rational power."""
    e = Fr(e)
    if e.denominator == 1:
        if c == 0 and e < 0:
            raise ZeroDivisionError
        return num(c ** int(e))
    if c == 0:
        if e < 0:
            raise ZeroDivisionError
        return ZERO
    if c == 1:
        return ONE
    if c < 0:
        raise Undecided("root of a negative constant")
    if e.denominator == 2:
        r = _isqrt(c)
        if r is not None:
            return num(r ** int(e * 2))
    if c.denominator != 1:
        return mul(cpow(Fr(c.numerator), e), cpow(Fr(c.denominator), -e))
    k = math.floor(e)
    f = e - k
    out = num(c ** k)
    n = c.numerator
    q = 2
    while q * q <= n and q < 2000:
        j = 0
        while n % q == 0:
            n //= q
            j += 1
        if j:
            g = f * j
            kk = math.floor(g)
            out = mul(out, num(Fr(q) ** kk))
            if g != kk:
                out = mul(out, _poly({((mk("cbase", Fr(q)), g - kk),): Fr(1)}))
        q += 1
    if n > 1:
        out = mul(out, _poly({((mk("cbase", Fr(n)), f),): Fr(1)}))
    return out


def power(p, e):
    p = P(p)
    if isinstance(e, Poly):
        c = e.const
        if c is None:
            pc = p.const
            return fn("pow", p, e)
        e = c
    if isinstance(e, float):
        e = Fr(repr(e))
    if isinstance(e, Fr) and e.denominator == 1:
        e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e < 0:
            return atom(mk("fn", "inverse_of_zero"))
        return ZERO
    c = p.const
    if c is not None:
        return cpow(c, e)
    if isinstance(e, int) and e > 0:
        if e <= 6:
            r = ONE
            for _ in range(e):
                r = mul(r, p)
            return r
    if has_ind(p):
        r = shannon(p, lambda q: power(q, e) if q.t or e > 0 else atom(mk("fn", "inverse_of_zero")))
        if r is not None:
            return r
        return atom(mk("fn", "pow", p, num(e)))
    frac = isinstance(e, Fr)
    if len(p.t) == 1:
        (m, c), = p.t
        out = ONE
        if frac and c < 0:
            lo, hi = interval(p)
            return atom(mk("fn", "pow", p, num(e)))
        out = cpow(c, e)
        rest = {}
        for a, ae in m:
            ne = ae * e
            if isinstance(ne, Fr) and ne.denominator == 1:
                ne = int(ne)
            if frac:
                lo, hi = interval_atom(a)
                nonneg = lo is not None and lo >= 0
                if not nonneg and ae != 1:
                    if ae % 2 == 0 and not isinstance(ae, Fr):
                        # even power: |a|^ne
                        out = mul(out, power(fn("abs", atom(a)), ne))
                        continue
                    if isinstance(ae, int):
                        return atom(mk("fn", "pow", p, num(e)))
                elif not nonneg and len(m) > 1:
                    # sign of the factors unknown: keep together unless others are positive
                    others = [b for b, be in m if b is not a]
                    if not all((interval_atom(b)[0] or -1) >= 0 or (m2 % 2 == 0 if isinstance(m2, int) else False)
                               for b, m2 in m if b is not a):
                        return atom(mk("fn", "pow", p, num(e)))
            rest[a] = rest.get(a, 0) + ne
        r = mono_poly(rest)
        return mul(out, r)
    # several terms: extract common factors
    r = reduced(p)
    if r is not p:
        return power(r, e)
    common = _common(p)
    out = ONE
    pull = {}
    for a, x in (common or {}).items():
        if x == 0:
            continue
        if frac:
            lo, _ = interval_atom(a)
            if lo is None or lo < 0:
                continue
        pull[a] = x
    if pull:
        p = _divmono(p, pull)
        out = mono_poly({a: x * e for a, x in pull.items()})
        return mul(out, power(p, e))
    lead = p.t[0][1]
    if frac:
        k = abs(lead)
    else:
        k = lead
    p = scale(p, Fr(1) / k)
    out = cpow(k, e)
    if frac and e > 1:
        kk = math.floor(e)
        return mul(mul(out, power(p, kk)), _poly({((mk("base", p), e - kk),): Fr(1)}))
    return mul(out, _poly({((mk("base", p), e),): Fr(1)}))


def sqrt(p):
    return power(p, Fr(1, 2))


def _divmono(p, pull):
    """p divided by a monomial common to all its terms."""
    out = ZERO
    flat = {}
    for m, c in p.t:
        d = dict(m)
        for a, x in pull.items():
            ne = d.get(a, 0) - x
            if isinstance(ne, Fr) and ne.denominator == 1:
                ne = int(ne)
            if ne == 0:
                d.pop(a, None)
            else:
                d[a] = ne
        if any(a.kind in ("base", "cbase") or a.kind in INDS for a in d):
            out = add(out, scale(mono_poly(d), c))
        else:
            k = tuple(sorted(d.items(), key=lambda ae: ae[0].id))
            flat[k] = flat.get(k, 0) + c
    return add(out, _poly(flat))


def cleared(p):
    """(numerator, {base: exponent}) with p = numerator * prod(base^-exponent)."""
    den = {}
    for _ in range(6):
        need = {}
        for m, _c in p.t:
            for a, e in m:
                if a.kind == "base" and e < 0:
                    need[a] = max(need.get(a, 0), -math.floor(e))
        if not need:
            return p, den
        b = max(need, key=lambda x: x.id)
        k = need[b]
        S = b.args[0]
        q = ZERO
        for m, c in p.t:
            d = dict(m)
            e = d.pop(b, 0) + k
            f = e - math.floor(e)
            if f:
                d[b] = f
            q = add(q, mul(scale(mono_poly(d), c), power(S, math.floor(e))))
            if len(q.t) > 300:
                return None, None
        den[b] = den.get(b, 0) + k
        p = q
    return None, None


def _common(p):
    """Exponents of the greatest common monomial (denominators included)."""
    mn, cnt = {}, {}
    for m, _c in p.t:
        for a, e in m:
            cnt[a] = cnt.get(a, 0) + 1
            if a not in mn or e < mn[a]:
                mn[a] = e
    n = len(p.t)
    return {a: e if cnt[a] == n else min(e, 0) for a, e in mn.items() if a.kind not in INDS and (cnt[a] == n or e < 0 and a.kind != "base")}


def reduced(p):
    """p with numerators divided by the sums in its denominators, if shorter."""
    if len(p.t) < 2:
        return p
    best = p
    for _ in range(4):
        bases = {a for m, _c in best.t for a, e in m if a.kind == "base" and isinstance(e, int) and e < 0}
        new = best
        for b in sorted(bases, key=lambda x: x.id):
            q = _divide_base(new, b)
            if q is not None and len(q.t) < len(new.t):
                new = q
        if new is best:
            break
        best = new
    return best


def _divide_base(p, b):
    S = b.args[0]
    lead = max(S.t, key=lambda t: (not any(a.kind in ("base", "cbase") for a, _e in t[0]), tuple(sorted((a.id for a, e in t[0]), reverse=True))))
    lm, lc = lead
    if not lm:
        return None
    rest = add(S, _poly({lm: -lc}))
    for _ in range(6):
        todo, keep = ZERO, ZERO
        hit = False
        for m, c in p.t:
            d = dict(m)
            e = d.get(b, 0)
            if isinstance(e, int) and e < 0 and all(d.get(a, 0) >= x if x > 0 else d.get(a, 0) <= x for a, x in lm):
                for a, x in lm:
                    d[a] -= x
                    if isinstance(d[a], Fr) and d[a].denominator == 1:
                        d[a] = int(d[a])
                hit = True
                q = scale(mono_poly({a: x for a, x in d.items() if x}), c / lc)
                d2 = dict(d)
                todo = add(todo, add(mul(q, _poly({((b, 1),): Fr(1)})) if e < -1 else scale(mono_poly({a: x for a, x in d2.items() if x and a is not b}), c / lc),
                                     neg(mul(q, rest))))
            else:
                keep = add(keep, _poly({m: c}))
        if not hit:
            return p
        p = add(keep, todo)
        if len(p.t) > 4000:
            return None
    return p


def fn(name, *args):
    """Apply a named scalar function."""
    if len(args) == 1 and isinstance(args[0], Poly):
        p = args[0]
        if has_ind(p) and name not in ("opaque",):
            r = shannon(p, lambda q: fn(name, q))
            if r is not None:
                return r
        if name == "abs":
            c = p.const
            if c is not None:
                return num(abs(c))
            if is_nonneg(p):
                return p
            if sign_lt0(p) is True or (interval(p)[1] is not None and interval(p)[1] <= 0):
                return neg(p)
            if len(p.t) == 1:
                (m, c), = p.t
                out = num(abs(c))
                for a, e in m:
                    lo, _ = interval_atom(a)
                    if lo is not None and lo >= 0 or (isinstance(e, int) and e % 2 == 0):
                        out = mul(out, _poly({((a, e),): Fr(1)}))
                    elif isinstance(e, int):
                        base = atom(a)
                        if a.kind == "fn" and a.args[0] == "abs":
                            out = mul(out, power(base, e))
                        else:
                            out = mul(out, power(atom(mk("fn", "abs", base)), e))
                    else:
                        out = mul(out, _poly({((a, e),): Fr(1)}))
                return out
            q, s = _orient(p)
            k = None
            # keep the scale: |p| = scale*|q|
            lead = [c for m, c in p.t if m]
            f = abs(lead[0]) if lead else abs(p.t[0][1])
            q2 = scale(p, Fr(1) / f * (1 if (lead[0] if lead else p.t[0][1]) > 0 else -1))
            return scale(atom(mk("fn", "abs", q2)), f)
        if name == "log":
            c = p.const
            if c == 1:
                return ZERO
            if len(p.t) == 1:
                (m, c), = p.t
                # log of product of positive factors
                def pos(a):
                    lo, _ = interval_atom(a)
                    return lo is not None and lo >= 0
                if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
                    neg_ok = all(pos(a) for a, e in m)
                    if neg_ok or len([1 for a, e in m if not pos(a)]) == 1:
                        out = ZERO
                        if c != 1:
                            # integers factorised by primes would be canonical; keep as constant logs
                            out = add(out, _logc(c))
                        ok = True
                        for a, e in m:
                            if a.kind == "fn" and a.args[0] == "exp":
                                out = add(out, scale(a.args[1], Fr(e)))
                            elif a.kind == "base":
                                out = add(out, scale(fn("log", a.args[0]), Fr(e)))
                            else:
                                out = add(out, scale(atom(mk("fn", "log", atom(a))), Fr(e)))
                        return out
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if a.kind == "fn" and a.args[0] == "exp":
                        return a.args[1]
                if c > 0 and not m:
                    return _logc(c)
                return atom(mk("fn", "log", p))
            # sum: pull common factors and content
            if p is ZERO:
                return atom(mk("fn", "log", p))
            r = reduced(p)
            if r is not p:
                return fn("log", r)
            common = _common(p)
            pull = {a: x for a, x in (common or {}).items()
                    if x and (interval_atom(a)[0] is not None and interval_atom(a)[0] >= 0 or a.kind == "base")}
            if pull:
                q = _divmono(p, pull)
                return add(fn("log", mono_poly(pull)), fn("log", q))
            q, den = cleared(p)
            if den and len(q.t) <= len(p.t) + 3:
                for b in list(den):
                    while den[b] > 0 and len(q.t) > 1:
                        r = ZERO
                        for m, c in q.t:
                            dd = dict(m)
                            dd[b] = dd.get(b, 0) - 1
                            r = add(r, scale(mono_poly({a: x for a, x in dd.items() if x}), c))
                        r = _divide_base(r, b)
                        if r is None or any(a is b and e < 0 for m, _c in r.t for a, e in m):
                            break
                        q = r
                        den[b] -= 1
                out = fn("log", q)
                for b, k in den.items():
                    out = add(out, scale(fn("log", b.args[0]), Fr(-k)))
                return out
            lead = p.t[0][1]
            k = abs(lead)
            if k != 1:
                return add(_logc(k), atom(mk("fn", "log", scale(p, Fr(1) / k))))
            return atom(mk("fn", "log", p))
        if name == "log1p":
            return fn("log", add(ONE, p))
        if name == "exp":
            if p is ZERO:
                return ONE
            if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][0].kind == "fn" and p.t[0][0][0][0].args[0] == "log":
                a, e = p.t[0][0][0]
                if e == 1:
                    return power(a.args[1], p.t[0][1])
        if name == "single":
            c = p.const
            if c is not None and c.denominator & (c.denominator - 1) == 0 and abs(c.numerator) < 2 ** 24:
                return p
            if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1 and (
                    p.t[0][0][0][0].kind in INDS or p.t[0][0][0][0].kind == "fn" and p.t[0][0][0][0].args[0] == "single"):
                return p
        if name in ("rint", "floor", "ceil", "trunc"):
            c = p.const
            if c is not None:
                if name == "floor":
                    return num(math.floor(c))
                if name == "ceil":
                    return num(math.ceil(c))
                if name == "trunc":
                    return num(int(c))
                return num(round(c))
            if is_int(p):
                return p
    if name == "maximum":
        a, b = args
        return ite(lt(a, b), b, a)
    if name == "minimum":
        a, b = args
        return ite(lt(b, a), b, a)
    if name == "div":
        return idiv(*args)
    if name == "mod":
        return imod(*args)
    return atom(mk("fn", name, *args))


def _logc(c):
    """log of a positive rational: sum of prime logs."""
    if c == 1:
        return ZERO
    out = ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        if n > 10 ** 12:
            # powers of ten and similar
            k = 0
            while n % 10 == 0:
                n //= 10
                k += 1
            if k:
                for pr in (2, 5):
                    out = add(out, scale(atom(mk("fn", "log", num(pr))), Fr(s * k)))
        while f * f <= n and f < 10000:
            while n % f == 0:
                out = add(out, scale(atom(mk("fn", "log", num(f))), Fr(s)))
                n //= f
            f += 1
        if n > 1:
            out = add(out, scale(atom(mk("fn", "log", num(n))), Fr(s)))
    return out


def is_int(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if not isinstance(e, int) or e < 0:
                return False
            if a.kind in ("idx", "ax", "bnd") or a.kind in INDS:
                continue
            if a.kind in ("sym", "elem") and SYM.get(a.args[0], {}).get("int"):
                continue
            if a.kind == "fn" and a.args[0] in ("rint", "floor", "ceil", "trunc", "div", "mod", "pois", "InBin"):
                continue
            if a.kind == "msum" and is_int(_poly({a.args[1]: Fr(1)})):
                continue
            return False
    return True


def idiv(p, q):
    """Integer division p // q for q >= 1."""
    if q is ONE:
        return p
    if p.const is not None and q.const is not None and q.const != 0:
        return num(math.floor(p.const / q.const))
    # split p = A*q + r
    A, r = _divsplit(p, q)
    if r is ZERO:
        return A
    if sign_lt0(r) is False and sign_lt0(add(r, neg(q))) is True:
        return A
    return add(A, atom(mk("fn", "div", r, q)))


def imod(p, q):
    if q is ONE:
        return ZERO
    if p.const is not None and q.const is not None and q.const != 0:
        return num(p.const - q.const * math.floor(p.const / q.const))
    A, r = _divsplit(p, q)
    if r is ZERO:
        return ZERO
    if sign_lt0(r) is False and sign_lt0(add(r, neg(q))) is True:
        return r
    return atom(mk("fn", "mod", r, q))


def _divsplit(p, q):
    A = ZERO
    r = ZERO
    if len(q.t) == 1:
        (qm, qc), = q.t
        qd = dict(qm)
        for m, c in p.t:
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in qd.items()) and (c / qc).denominator == 1:
                A = add(A, _poly({tuple(sorted(((a, e - qd.get(a, 0)) for a, e in d.items() if e != qd.get(a, 0)),
                                               key=lambda x: x[0].id)): c / qc}))
            else:
                r = add(r, _poly({m: c}))
        # div(f,q)*q + mod(f,q) = f
        return A, r
    return ZERO, p


# ---------------------------------------------------------------- substitution

def subst(p, mp):
    """Replace leaf atoms by polynomials."""
    if not mp or p.leaves.isdisjoint(mp):
        return p
    out = {}
    for m, c in p.t:
        touched = False
        for a, _e in m:
            if not a.leaves.isdisjoint(mp):
                touched = True
                break
        if not touched:
            out[m] = out.get(m, 0) + c
            continue
        r = num(c)
        keep = {}
        for a, e in m:
            if a.leaves.isdisjoint(mp):
                keep[a] = e
            else:
                r = mul(r, power(subst_atom(a, mp), e))
                if r is ZERO:
                    break
        if r is not ZERO:
            _acc(out, mul(r, mono_poly(keep)) if keep else r)
    return _poly(out)


def subst_atom(a, mp):
    """Atom under substitution, as a polynomial."""
    if a in mp:
        return mp[a]
    if a.leaves.isdisjoint(mp):
        return atom(a)
    k = a.kind
    if k in ("idx", "ax"):
        n = subst(a.args[1], mp)
        if n is a.args[1]:
            return atom(a)
        return atom(mk(k, a.args[0], n))
    if k == "elem":
        r = mk("elem", a.args[0], *[_sub_arg(x, mp) for x in a.args[1:]])
        return mp.get(r, None) or atom(r)
    if k == "bnd":
        return atom(mk("bnd", a.args[0], subst(a.args[1], mp)))
    if k == "base":
        return subst(a.args[0], mp)
    if k == "lt":
        return lt0(subst(a.args[0], mp))
    if k == "eq":
        return eq0(subst(a.args[0], mp))
    if k == "b":
        return bsym(a.args[0], *[_sub_arg(x, mp) for x in a.args[1:]])
    if k == "any":
        return atom(mk("any", _sub_arg(a.args[0], mp)))
    if k == "msum":
        bnds, body = a.args
        idxs, body = open_msum(a)
        q = subst(_poly({body: Fr(1)}), mp)
        for i in reversed(idxs):
            n = subst(i.args[1], mp)
            if n is not i.args[1]:
                j = fresh_idx(n)
                q = subst(q, {i: atom(j)})
                i = j
            q = make_sum(i.args[1], i, q)
        return q
    if k == "arr":
        raise Undecided("array atom in scalar position")
    if k == "fn":
        return fn(a.args[0], *[_sub_arg(x, mp) for x in a.args[1:]])
    return atom(a)


def _divfix(p):
    """k*q*div(r,q) + k*mod(r,q) = k*r."""
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "mod":
            r, q = m[0][0].args[1:]
            d = mk("fn", "div", r, q)
            t = scale(mul(q, atom(d)), c)
            have = dict(p.t)
            if t.t and all(have.get(mm) == cc for mm, cc in t.t):
                rest = dict(have)
                for mm, _ in t.t:
                    del rest[mm]
                del rest[m]
                return _divfix(add(_poly(rest), scale(r, c)))
    return p


def _sub_arg(x, mp):
    if isinstance(x, Poly):
        return _divfix(subst(x, mp))
    if isinstance(x, Atom):
        if x.kind == "arr":
            if x.leaves.isdisjoint(mp):
                return x
            axes, blocks = open_arr(x)
            axes2 = tuple(tuple(subst(s, mp) for s in ax) for ax in axes)
            nb = {}
            for key, q in blocks.items():
                m2 = dict(mp)
                for d, s in enumerate(key):
                    o, n = axes[d][s], axes2[d][s]
                    if o is not n:
                        m2[mk("ax", d, o)] = atom(mk("ax", d, n))
                # protect own ax placeholders from the outer substitution
                ren = {}
                back = {}
                for d, s in enumerate(key):
                    axa = mk("ax", d, axes[d][s])
                    if axa in mp:
                        f = fresh_idx(axes[d][s])
                        ren[axa] = atom(f)
                        back[f] = atom(mk("ax", d, axes2[d][s]))
                        m2.pop(axa, None)
                q = subst(subst(subst(q, ren), {k: v for k, v in m2.items()}), back) if ren else subst(q, m2)
                nb[key] = q
            return mk_arr(axes2, nb)
        r = subst_atom(x, mp)
        return r
    if isinstance(x, tuple):
        return tuple(_sub_arg(y, mp) for y in x)
    return x


# ---------------------------------------------------------------- sums

def _rebnd(m, mp):
    """Replace bnd atoms (not tracked in leaves) inside a monomial -> poly."""
    return subst_bnd(_poly({m: Fr(1)}), mp)


def subst_bnd(p, mp):
    """Replace bound variables; mp: bnd atom -> poly."""
    lv = {b.args[0] for b in mp}
    mn = min(lv)
    if p.lvl < mn:
        return p
    out = {}
    for m, c in p.t:
        r = num(c)
        for a, e in m:
            if a.lvl < mn:
                r = mul(r, _poly({((a, e),): Fr(1)}))
            else:
                r = mul(r, power(_subst_bnd_atom(a, mp), e))
        _acc(out, r)
    return _poly(out)


def _subst_bnd_arg(x, mp):
    if isinstance(x, Poly):
        return subst_bnd(x, mp)
    if isinstance(x, Atom):
        if x.kind == "arr":
            if x.lvl < min(b.args[0] for b in mp):
                return x
            axes = tuple(tuple(subst_bnd(s, mp) for s in ax) for ax in x.args[0])
            # inner binders of x have levels below the opened ones: rebuild
            oa, ob = open_arr(x)
            nb = {k: subst_bnd(q, mp) for k, q in ob.items()}
            nb2 = {}
            for k, q in nb.items():
                m2 = {}
                for d, s in enumerate(k):
                    if oa[d][s] is not axes[d][s]:
                        m2[mk("ax", d, oa[d][s])] = atom(mk("ax", d, axes[d][s]))
                nb2[k] = subst(q, m2)
            return mk_arr(axes, nb2)
        return _subst_bnd_atom(x, mp)
    if isinstance(x, tuple):
        return tuple(_subst_bnd_arg(y, mp) for y in x)
    return x


def _subst_bnd_atom(a, mp):
    if a in mp:
        return mp[a]
    if a.lvl < min(b.args[0] for b in mp):
        return atom(a)
    k = a.kind
    if k == "bnd":
        return atom(mk("bnd", a.args[0], subst_bnd(a.args[1], mp)))
    if k in ("idx", "ax"):
        return atom(mk(k, a.args[0], subst_bnd(a.args[1], mp)))
    if k == "elem":
        return atom(mk("elem", a.args[0], *[_subst_bnd_arg(x, mp) for x in a.args[1:]]))
    if k == "base":
        return subst_bnd(a.args[0], mp)
    if k == "lt":
        return lt0(subst_bnd(a.args[0], mp))
    if k == "eq":
        return eq0(subst_bnd(a.args[0], mp))
    if k == "b":
        return bsym(a.args[0], *[_subst_bnd_arg(x, mp) for x in a.args[1:]])
    if k == "any":
        return atom(mk("any", _subst_bnd_arg(a.args[0], mp)))
    if k == "msum":
        idxs, body = open_msum(a)
        q = subst_bnd(_poly({body: Fr(1)}), mp)
        for i in reversed(idxs):
            n = subst_bnd(i.args[1], mp)
            if n is not i.args[1]:
                j = fresh_idx(n)
                q = subst(q, {i: atom(j)})
                i = j
            q = make_sum(i.args[1], i, q)
        return q
    if k == "fn":
        return fn(a.args[0], *[_subst_bnd_arg(x, mp) for x in a.args[1:]])
    return atom(a)


def open_msum(a):
    """(fresh index atoms, body monomial)."""
    bnds, body = a.args
    mp = {}
    idxs = []
    # lengths may mention earlier binders
    for b in bnds:
        n = b.args[1]
        if mp and n.lvl:
            n = subst_bnd(n, mp)
        i = fresh_idx(n)
        idxs.append(i)
        mp[b] = atom(i)
    q = _rebnd(body, mp)
    if len(q.t) != 1 or q.t[0][1] != 1:
        # renaming may not change the shape; be safe
        if len(q.t) == 1:
            return idxs, q.t[0][0]
        raise Undecided("sum body changed under renaming")
    return idxs, q.t[0][0]


PRODUCT_SIZES = []     # list of (outer, inner) size polys whose product is a flattened length


def make_sum(n, idx, p):
    """sum_{idx<n} p."""
    n = P(n)
    c = n.const
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 24:
            out = {}
            for k in range(int(c)):
                _acc(out, subst(p, {idx: num(k)}))
            return _poly(out)
    out = {}
    for m, co in p.t:
        dep = {}
        ind = {}
        for a, e in m:
            (dep if idx in a.leaves else ind)[a] = e
        if not dep:
            _acc(out, mul(mono_poly(ind), n), co)
            continue
        r = _split_sum(n, idx, dep) if PRODUCT_SIZES else None
        if r is None:
            r = _sum_mono(n, idx, dep)
        _acc(out, mul(mono_poly(ind), r), co)
    return _poly(out)


def _split_sum(n, idx, dep):
    """Sum over a flattened two dimensional range (None: not split)."""
    if any(a.kind == "eq" and _solve_for(a.args[0], idx) is not None for a in dep):
        return None
    for o, i in PRODUCT_SIZES:
        if n is mul(o, i):
            a, b = fresh_idx(o), fresh_idx(i)
            q = subst(mono_poly(dep), {idx: add(mul(atom(a), i), atom(b))})
            return make_sum(o, a, make_sum(i, b, q))
    return None


def _sum_mono(n, idx, dep):
    # delta elimination
    for a in sorted(dep, key=lambda x: x.id):
        if a.kind == "eq":
            q = _solve_for(a.args[0], idx)
            if q is not None:
                rest = {b: e for b, e in dep.items() if b is not a}
                body = subst(mono_poly(rest), {idx: q})
                rng = mul(c_not(lt0(q)), lt0(add(q, neg(n))))
                return mul(rng, body)
    binders = [idx]
    group = {}
    todo = list(dep.items())
    for a, e in todo:
        if a.kind == "msum" and isinstance(e, int) and e >= 1:
            for _ in range(e):
                ix, body = open_msum(a)
                binders += ix
                for b, be in body:
                    group[b] = group.get(b, 0) + be
        else:
            group[a] = group.get(a, 0) + e
    return close_sum(binders, group)


def _solve_for(p, x):
    """p linear in x with coefficient +-1: solution polynomial."""
    coef = None
    rest = {}
    for m, c in p.t:
        if any(x in a.leaves for a, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1 and abs(c) == 1:
                if coef is not None:
                    return None
                coef = c
            else:
                return None
        else:
            rest[m] = c
    if coef is None:
        return None
    return scale(_poly(rest), Fr(-1) / coef)


def close_sum(binders, group):
    """Product of sums over the binders of the monomial 'group'."""
    bset = set(binders)
    # connected components
    comp = []
    free = {}
    items = []
    for a, e in group.items():
        bs = {x for x in a.leaves if x in bset}
        if not bs:
            free[a] = e
        else:
            items.append((a, e, bs))
    # binder lengths depending on binders connect them
    links = []
    for b in binders:
        bs = {x for x in b.args[1].leaves if x in bset}
        if bs:
            links.append(bs | {b})
    sets = [set(s) for _, _, s in items] + links
    merged = []
    for s in sets:
        s = set(s)
        keep = []
        for t in merged:
            if t & s:
                s |= t
            else:
                keep.append(t)
        merged = keep + [s]
    out = mono_poly(free) if free else ONE
    covered = set()
    for s in merged:
        covered |= s
        atoms = {a: e for a, e, bs in items if bs <= s}
        out = mul(out, _close_component(sorted(s, key=lambda x: x.id), atoms))
    for b in binders:
        if b not in covered:
            out = mul(out, b.args[1])
    return out


def _close_component(bs, atoms):
    base = max([a.lvl for a in atoms] + [b.args[1].lvl for b in bs] + [0])
    mono = mono_poly(atoms)
    best = None
    bad = False
    # order: binders whose length depends on others come later
    def ok(perm):
        seen = set()
        for b in perm:
            if any(x in bs and x not in seen for x in b.args[1].leaves if x is not b):
                return False
            seen.add(b)
        return True
    perms = permutations(bs) if len(bs) <= 4 else [tuple(bs)]
    for perm in perms:
        if not ok(perm):
            continue
        mp = {}
        bn = []
        for k, b in enumerate(perm):
            n = subst(b.args[1], mp) if mp else b.args[1]
            v = mk("bnd", base + 1 + k, n)
            bn.append(v)
            mp[b] = atom(v)
        q = subst(mono, mp)
        if len(q.t) != 1 or q.t[0][1] != 1:
            bad = True
            continue
        cand = (tuple(bn), q.t[0][0])
        key = (_mkey(cand[1]), tuple(v.id for v in bn))
        if best is None or key < best[0]:
            best = (key, cand)
    if best is None:
        raise Undecided("sum body not a monomial after renaming" if bad else "cyclic sum ranges")
    bn, body = best[1]
    return atom(mk("msum", bn, body))


# ---------------------------------------------------------------- array keys

def mk_arr(axes, blocks):
    """Interned array value usable as argument of opaque functions.

    axes: tuple of tuples of segment lengths; blocks: dict key->poly over ax atoms."""
    base = max([q.lvl for q in blocks.values()] + [s.lvl for ax in axes for s in ax] + [0])
    items = []
    for key in sorted(blocks):
        q = blocks[key]
        mp = {}
        for d, s in enumerate(key):
            mp[mk("ax", d, axes[d][s])] = atom(mk("bnd", base + 1 + d, axes[d][s]))
        items.append((key, subst(q, mp)))
    return mk("arr", tuple(axes), tuple(items), base)


def open_arr(a):
    axes, items, base = a.args
    blocks = {}
    for key, q in items:
        mp = {}
        for d, s in enumerate(key):
            mp[mk("bnd", base + 1 + d, axes[d][s])] = atom(mk("ax", d, axes[d][s]))
        blocks[key] = subst_bnd(q, mp) if mp else q
    return axes, blocks


# ---------------------------------------------------------------- printing

_SUP = {Fr(1, 2): "^½", -1: "^-1", Fr(-1, 2): "^-½"}


def show_atom(a):
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k == "idx":
        return f"i{a.args[0]}"
    if k == "ax":
        return "ijkl"[a.args[0]] if a.args[0] < 4 else f"ax{a.args[0]}"
    if k == "bnd":
        return f"b{a.args[0]}"
    if k == "elem":
        return f"{a.args[0]}[{','.join(show(x) if isinstance(x, Poly) else show_arg(x) for x in a.args[1:])}]"
    if k == "base":
        return f"({show(a.args[0])})"
    if k == "cbase":
        return f"{a.args[0]}"
    if k == "lt":
        return f"[{show(a.args[0])}<0]"
    if k == "eq":
        return f"[{show(a.args[0])}==0]"
    if k == "b":
        return f"[{a.args[0]}{'(' + ','.join(show_arg(x) for x in a.args[1:]) + ')' if len(a.args) > 1 else ''}]"
    if k == "any":
        return f"[any {show_arg(a.args[0])}]"
    if k == "msum":
        return "Σ{" + ",".join(f"{show_atom(b)}<{show(b.args[1])}" for b in a.args[0]) + "}(" + show_mono(a.args[1], 1) + ")"
    if k == "fn":
        return f"{a.args[0]}({', '.join(show_arg(x) for x in a.args[1:])})"
    if k == "arr":
        return show_arg(a)
    return k


def show_arg(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        if x.kind == "arr":
            return "<" + "; ".join(f"{show(q)}" for _, q in x.args[1]) + " | " + "×".join("+".join(show(s) for s in ax) for ax in x.args[0]) + ">"
        return show_atom(x)
    if isinstance(x, tuple):
        return "(" + ",".join(show_arg(y) for y in x) + ")"
    return str(x)


def show_mono(m, c):
    s = []
    if c != 1 or not m:
        s.append(str(c) if abs(c.denominator if isinstance(c, Fr) else 1) < 10 ** 6 else f"{float(c):g}")
    for a, e in m:
        t = show_atom(a)
        if e != 1:
            t += _SUP.get(e, f"^{e}")
        s.append(t)
    return "·".join(s)


def show(p, limit=None):
    if not p.t:
        return "0"
    s = _shown.get(p)
    if s is None:
        s = " + ".join(show_mono(m, c) for m, c in p.t[:60])
        if len(p.t) > 60 or len(s) > 4000:
            s = s[:4000] + " …"
        _shown[p] = s
    return s


_shown = {}


# ---------------------------------------------------------------- numeric interpretation of terms

class NumEnv:
    """A random interpretation of all symbols; used to separate expressions
    whose normal forms differ."""

    def __init__(self, seed, wide=False, shift=0, style=""):
        self.style = style     # "sparse": whole symbols are zero, "tied": few different values
        self.seed = seed
        self.wide = wide       # also very small and very large values
        self.exact = False     # entries of bins by comparison with the edges
        self.shift = shift     # relative change of every value, see compare()
        self.unit = 1.0        # size of all values without an upper bound
        self.cache = {}
        self.given = {}        # values to take
        self.conds = None      # values that conditions compare with zero, if they are wanted
        self.idx = {}
        self.memo = {}

    def rnd(self, key, lo=None, hi=None, integer=False, zg=False):
        k = (key, lo, hi, integer)
        if k in self.cache:
            return self.cache[k]
        r = random.Random(f"{self.seed}|{key}")
        pz = 0.3
        name = key[0] if isinstance(key, tuple) else key
        if k in self.given:
            v = self.cache[k] = self.given[k]
            return v
        if self.style:
            pz = random.Random(f"{self.seed}|{name}|zeros").choice((0.0, 0.3, 0.9, 1.0))
        if self.style == "flat" and not integer and name != "§x":
            # one value per symbol, zero where that is possible
            q = random.Random(f"{self.seed}|{name}|flat")
            v = q.choice((0.0, 1.0, 1.0, 2.0))
            if lo is not None and (v < lo or v == 0 and not zg):
                v = float(lo) + q.choice((1.0, 2.0))
            if hi is not None and v > hi:
                v = float(hi) if lo is None else (float(lo) + float(hi)) / 2
            self.cache[k] = v
            return v
        if self.style == "tied" and not integer:
            if zg and r.random() < pz:
                v = 0.0
            elif lo is not None and hi is not None:
                v = float(lo) + (float(hi) - float(lo)) * r.choice((0.25, 0.5, 0.75))
            elif lo is not None:
                v = float(lo) + r.choice((0.5, 1.0, 2.0))
            elif hi is not None:
                v = float(hi) - r.choice((0.5, 1.0, 2.0))
            else:
                v = r.choice((-1.0, 0.5, 1.0, 2.0))
            self.cache[k] = v
            return v
        if integer:
            l = int(lo) if lo is not None else -3
            h = int(hi) if hi is not None else l + 2
            v = r.randint(l, min(h, l + 2))
            if zg and r.random() < pz:
                v = 0
        else:
            if zg and r.random() < pz:
                v = 0.0
            elif lo is not None and hi is not None:
                v = float(lo) + (float(hi) - float(lo)) * r.uniform(0.05, 0.95)
            elif lo is not None:
                v = float(lo) + r.uniform(0.3, 3.0)
            elif hi is not None:
                v = float(hi) - r.uniform(0.3, 3.0)
            else:
                v = r.uniform(0.2, 2.5) * r.choice((1, 1, -1))
            if self.wide and hi is None and v:
                base = float(lo) if lo is not None else 0.0
                v = base + (v - base) * 10 ** r.uniform(-3, 3)
            if self.unit != 1.0 and hi is None and (not lo or 0 < lo < 1e-30):
                v *= self.unit
            if self.shift:
                v *= 1 + self.shift * r.uniform(0.5, 1.0)
        self.cache[k] = v
        return v

    def ev(self, p):
        k = (p, tuple(self.idx.items())) if self.idx else p
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self._ev(p)
        return v

    def _ev(self, p):
        tot = 0.0
        for m, c in p.t:
            v = float(c)
            # indicators first: they may guard undefined factors
            for a, e in m:
                if a.kind in INDS:
                    x = self.at(a)
                    if x == 0:
                        v = 0.0
                        break
            if v == 0.0:
                continue
            for a, e in m:
                if a.kind in INDS:
                    continue
                x = self.at(a)
                if e == 1:
                    v *= x
                else:
                    if x == 0 and e < 0:
                        raise ZeroDivisionError
                    if x < 0 and isinstance(e, Fr):
                        raise ValueError("root of negative")
                    v *= x ** float(e) if isinstance(e, Fr) else x ** e
            tot += v
        return tot

    def size(self, p):
        v = self.ev(p)
        return int(round(v))

    def at(self, a):
        k = a.kind
        if k == "sym":
            if a.args[0] == "inf":
                return 1e300
            if a.args[0] == "-inf":
                return -1e300
            i = SYM.get(a.args[0], {})
            return self.rnd(a.args[0], i.get("lo"), i.get("hi"), i.get("int"), i.get("zg"))
        if k not in ("idx", "ax", "bnd", "elem", "cbase"):
            key = (a, tuple(self.idx.items())) if self.idx else a
            v = self.memo.get(key)
            if v is None:
                v = self.memo[key] = self._at(a)
            return v
        return self._at(a)

    def _at(self, a):
        k = a.kind
        if k in ("idx", "ax", "bnd"):
            if a in self.idx:
                return self.idx[a]
            n = self.size(a.args[1])
            return self.rnd((k, a.args[0]), 0, max(n - 1, 0), True)
        if k == "elem":
            i = SYM.get(a.args[0], {})
            if a.args[0] == "§x":
                i = {"lo": 0.5, "hi": 2}    # argument of a derivative: inside the domain of logarithms
            ix = tuple(int(round(self.ev(x))) if isinstance(x, Poly) else x for x in a.args[1:])
            return self.rnd((a.args[0], ix), i.get("lo"), i.get("hi"), i.get("int"), i.get("zg"))
        if k == "base":
            return self.ev(a.args[0])
        if k == "cbase":
            return float(a.args[0])
        if k in ("lt", "eq"):
            v = self.ev(a.args[0])
            if self.conds is not None and len(self.conds) < 40:
                self.conds.append((a, dict(self.idx), v))
            if k == "lt":
                return 1 if v < -1e-12 else 0
            return 1 if abs(v) < 1e-9 else 0
        if k == "b":
            r = random.Random(f"{self.seed}|{self.key(a.args)}")
            return r.randint(0, 1)
        if k == "any":
            v = self.arr(a.args[0])
            return 1 if any(x > 0.5 for x in _flat(v)) else 0
        if k == "msum":
            bn, body = a.args
            p = _poly({body: Fr(1)})
            return self._sum(list(bn), p)
        if k == "fn":
            return self.func(a)
        raise Undecided("cannot evaluate " + k)

    def _sum(self, bn, p):
        if not bn:
            return self.ev(p)
        b = bn[0]
        n = self.size(b.args[1])
        tot = 0.0
        old = self.idx.get(b)
        for i in range(n):
            self.idx[b] = i
            tot += self._sum(bn[1:], p)
        if old is None:
            self.idx.pop(b, None)
        else:
            self.idx[b] = old
        return tot

    def in_bin(self, x, edges, i):
        e = list(_flat(self.arr(edges)))
        if any(b <= a for a, b in zip(e, e[1:])):
            raise ValueError("edges do not increase")
        v, k = self.ev(x), int(round(self.ev(i)))
        if not 0 <= k < len(e) - 1:
            raise ValueError("number of the bin")
        if k == len(e) - 2 and abs(v - e[k + 1]) < 1e-9:
            return 1.0
        return float(v - e[k] > -1e-12 and v - e[k + 1] < -1e-12)

    def arr(self, a):
        axes, items, base = a.args
        d = dict(items)
        offs = []

        def rec(dim, key, bind):
            if dim == len(axes):
                q = d[tuple(key)]
                old = {}
                for b, v in bind:
                    old[b] = self.idx.get(b)
                    self.idx[b] = v
                try:
                    return self.ev(q)
                finally:
                    for b, v in old.items():
                        if v is None:
                            self.idx.pop(b, None)
                        else:
                            self.idx[b] = v
            out = []
            for s, n in enumerate(axes[dim]):
                b = mk("bnd", base + 1 + dim, n)
                if n is ONE:
                    out.append(rec(dim + 1, key + [s], bind))
                    continue
                for i in range(self.size(n)):
                    out.append(rec(dim + 1, key + [s], bind + [(b, i)]))
            return out
        return rec(0, [], [])

    def key(self, x):
        if isinstance(x, Poly):
            return round(self.ev(x), 6) + 0.0
        if isinstance(x, Atom):
            if x.kind == "arr":
                return _round(self.arr(x))
            return round(self.at(x), 6) + 0.0
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def func(self, a):
        f = a.args[0]
        xs = a.args[1:]
        if f in ("abs", "log", "exp", "rint", "floor", "ceil", "trunc", "pow", "div", "mod", "single"):
            v = [self.ev(x) for x in xs]
            if f == "abs":
                return abs(v[0])
            if f == "log":
                if v[0] <= 0:
                    raise ValueError
                return math.log(v[0])
            if f == "exp":
                return math.exp(min(v[0], 50))
            if f == "rint":
                return float(round(v[0]))
            if f == "floor":
                return math.floor(v[0])
            if f == "ceil":
                return math.ceil(v[0])
            if f == "trunc":
                return float(int(v[0]))
            if f == "single":
                # any loss of precision: fewer digits than single precision has, so that it shows
                return float(f"{v[0]:.3g}")
            if f == "pow":
                if v[0] < 0 and v[1] != int(v[1]):
                    raise ValueError
                if v[0] == 0 and v[1] < 0:
                    raise ZeroDivisionError
                return v[0] ** v[1]
            if f == "div":
                return math.floor(v[0] / v[1] + 1e-9)
            if f == "mod":
                return v[0] - v[1] * math.floor(v[0] / v[1] + 1e-9)
        if f == "inverse_of_zero":
            raise ZeroDivisionError
        if f in ("max", "min") and isinstance(xs[0], Atom) and xs[0].kind == "arr":
            v = list(_flat(self.arr(xs[0])))
            if not v:
                raise ValueError("empty extremum")
            return max(v) if f == "max" else min(v)
        if f == "round":
            return float(round(self.ev(xs[0]), int(self.ev(xs[1]))))
        if f == "inv" and isinstance(xs[0], Atom) and xs[0].kind == "arr":
            k = ("inv", _round(self.arr(xs[0])))
            m = self.memo.get(k)
            if m is None:
                m = self.memo[k] = _invert(self.arr(xs[0]))
            return m[int(round(self.ev(xs[1])))][int(round(self.ev(xs[2])))]
        k = self.key(xs)
        r = random.Random(f"{self.seed}|{f}|{k}")
        if f in ("pois",):
            return float(r.randint(0, 9))
        if f == "InBin":
            if self.exact:
                return self.in_bin(*xs)
            return float(r.randint(0, 1))
        if f in ("fit_value", "fit_error", "fit_min"):
            v = r.uniform(0.2, 2.5) * (r.choice((1, 1, -1)) if f == "fit_value" else 1)
            if self.wide:
                v *= 10 ** r.uniform(-4, 4)
            if self.shift:
                v *= 1 + self.shift * r.uniform(0.5, 1.0)
            return v
        return r.uniform(0.2, 2.5)


def expand_bins(p):
    """InBin written out as comparisons (None: not possible)."""
    out = {}
    for m, c in p.t:
        r = num(c)
        for a, e in m:
            q = atom(a)
            if a.kind == "fn" and a.args[0] == "InBin":
                q = _bin_cond(*a.args[1:])
                if q is None:
                    return None
            elif a.kind == "msum":
                idxs, body = open_msum(a)
                q = expand_bins(_poly({body: Fr(1)}))
                if q is None:
                    return None
                for i in reversed(idxs):
                    q = make_sum(i.args[1], i, q)
            r = mul(r, power(q, e))
        _acc(out, r)
    return _poly(out)


def _bin_cond(x, edges, i):
    axes, blocks = open_arr(edges)
    segs = axes[0]
    ax = mk("ax", 0, segs[0])
    if len(segs) == 1 and segs[0] is not ONE:
        n = add(segs[0], num(-1))

        def edge(k):
            return subst(blocks[(0,)], {ax: k})
    elif all(s is ONE for s in segs) and i.const is not None:
        n = num(len(segs) - 1)

        def edge(k):
            return blocks[(int(k.const),)]
    else:
        return None
    low, high = edge(i), edge(add(i, ONE))
    top = eq(i, add(n, num(-1)))
    up = ite(top, le(x, high), lt(x, high))
    return mul(le(low, x), up)


def _invert(v):
    """Inverse of a nested list (Gauss-Jordan)."""
    n = len(v)
    m = [list(map(float, v[i])) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) < 1e-9:
            raise ZeroDivisionError
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0.0:
                k = m[r][c]
                m[r] = [x - k * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


def _flat(v):
    if isinstance(v, list):
        for x in v:
            yield from _flat(x)
    else:
        yield v


def _round(v):
    if isinstance(v, list):
        return tuple(_round(x) for x in v)
    return round(v, 6) + 0.0


# ---------------------------------------------------------------- equality

_diffcache = {}


def diff(p, x):
    """Derivative of a polynomial expression by the leaf atom x (conditions
    are locally constant)."""
    if not any(x in a.leaves or a is x for m, _c in p.t for a, _e in m):
        return ZERO
    k = (p.id, x.id)
    if k in _diffcache:
        return _diffcache[k]
    out = {}
    for m, c in p.t:
        for i, (a, e) in enumerate(m):
            if a is not x and x not in a.leaves:
                continue
            da = _diff_atom(a, x)
            if da is ZERO:
                continue
            d = dict(m)
            ne = e - 1
            if isinstance(ne, Fr) and ne.denominator == 1:
                ne = int(ne)
            if ne == 0:
                d.pop(a)
            else:
                d[a] = ne
            _acc(out, mul(mono_poly(d), da), c * e)
    r = _diffcache[k] = _poly(out)
    return r


def _diff_atom(a, x):
    if a is x:
        return ONE
    if a.kind == "base":
        return diff(a.args[0], x)
    if a.kind in INDS:
        return ZERO
    if a.kind == "fn" and a.args[0] == "log":
        return mul(diff(a.args[1], x), power(a.args[1], -1))
    if a.kind == "fn" and a.args[0] == "exp":
        return mul(diff(a.args[1], x), atom(a))
    if a.kind == "fn" and a.args[0] == "inverse_of_zero":
        return ZERO
    raise Undecided("derivative of " + a.kind)


def divided(p):
    """p with all numerators divided by the sums in the denominators."""
    for _ in range(3):
        bases = {a for m, _c in p.t for a, e in m if a.kind == "base" and isinstance(e, int) and e < 0}
        q = p
        for b in sorted(bases, key=lambda x: -x.id):
            r = _divide_base(q, b)
            if r is not None:
                q = r
        if q is p or q is ZERO:
            return q
        p = q
    return p


def ratzero(p):
    """Rational-function zero test (clears denominators and roots)."""
    if divided(p) is ZERO:
        return True
    for _ in range(12):
        if p is ZERO:
            return True
        if len(p.t) > 600:
            return False
        bases = {}
        for m, _c in p.t:
            for a, e in m:
                if a.kind == "base" or (e < 0 and a.kind not in INDS):
                    bases.setdefault(a, []).append(e)
        if not bases:
            return False
        a = min(bases, key=lambda x: x.id)
        es = bases[a]
        mn = min(min(es), 0)
        # group by fractional class
        classes = {}
        for m, c in p.t:
            e = dict(m).get(a, 0)
            cls = Fr(e) - math.floor(Fr(e))
            classes.setdefault(cls, {})[m] = c
        if len(classes) > 1:
            return all(ratzero(_poly(d)) for d in classes.values())
        cls = next(iter(classes))
        shift = -mn
        try:
            q = ZERO
            for m, c in p.t:
                d = dict(m)
                e = d.pop(a, 0) + shift
                if isinstance(e, Fr) and e.denominator == 1:
                    e = int(e)
                k = math.floor(e)
                f = e - k
                t = scale(mono_poly(d), c)
                b = a.args[0] if a.kind == "base" else atom(a)
                if a.kind == "base":
                    t = mul(t, power(b, int(k))) if k else t
                else:
                    t = mul(t, _poly({((a, int(k)),): Fr(1)})) if k else t
                # the common fractional factor f is dropped
                q = add(q, t)
        except Undecided:
            return False
        if q is p:
            return False
        p = q
    return False


def compare(p, q, gate=ONE, seed=1, tries=40, assume=()):
    r = _compare(p, q, gate, seed, tries, assume)
    if r[0] == "equal" or not (has_bins(p) or has_bins(q)):
        return r
    # the entries of a bin are also what comparisons with its edges select
    try:
        a, b = expand_bins(p), expand_bins(q)
        if a is not None and b is not None:
            g = mul(gate, add(a, neg(b)))
            if g is ZERO or ratzero(g):
                return "equal", None
    except (Undecided, ZeroDivisionError):
        pass
    if r[0] != "different":
        return r
    hits = 0
    for k in range(20 * tries):
        env = NumEnv(f"{seed}-b{k}", style=("", "sparse", "tied")[k % 3])
        env.exact = True
        try:
            if gate is not ONE and env.ev(gate) < 0.5 or any(env.ev(c) < 0.5 for c in assume):
                continue
            a, b = env.ev(p), env.ev(q)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        hits += 1
        if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
            return "different", (a, b)
        if hits > 3 * tries:
            break
    return ("unknown", hits) if hits else r


def has_bins(p):
    return any(a.kind == "fn" and a.args[0] == "InBin" or a.kind == "msum" and any(
        b.kind == "fn" and b.args[0] == "InBin" for b, _ in a.args[1]) for m, _ in p.t for a, _e in m)


def _compare(p, q, gate=ONE, seed=1, tries=40, assume=()):
    """'equal' (proved), 'different' (a random interpretation separates the
    two under the gate) or 'unknown'."""
    if p is q:
        return "equal", None
    d = add(p, neg(q))
    g = mul(gate, d)
    if g is ZERO:
        return "equal", None
    try:
        if ratzero(g):
            return "equal", None
    except (Undecided, ZeroDivisionError):
        pass
    hits = 0
    total = 0
    for k in range(4 * tries):
        style = ("", "sparse", "tied", "flat")[k // tries]
        if k % tries == 0:
            hits = 0
        elif hits >= 14:
            continue
        env = NumEnv(f"{seed}-{k}", style=style)
        try:
            if gate is not ONE and env.ev(gate) < 0.5:
                continue
            if any(env.ev(c) < 0.5 for c in assume):
                continue
            a, b = env.ev(p), env.ev(q)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        hits += 1
        total += 1
        if isinstance(a, complex) or isinstance(b, complex):
            continue
        if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
            return "different", (a, b)
    hits = total
    wide = 0
    # values of very different sizes, then all very small, then all very large
    for k in range(tries + 12):
        far = k - tries
        if far < 0 and wide >= 14:
            continue
        try:
            ds = []
            for shift in (0, 1e-12, -1e-12):
                env = NumEnv(f"{seed}-w{k}", True, shift)
                if far >= 0:
                    env.wide, env.unit = False, (1e-9, 1e9, 1e-12, 1e-5)[far % 4]
                if gate is not ONE and env.ev(gate) < 0.5 or any(env.ev(c) < 0.5 for c in assume):
                    break
                a, b = env.ev(p), env.ev(q)
                if isinstance(a, complex) or isinstance(b, complex) or abs(a) > 1e12 * env.unit or abs(b) > 1e12 * env.unit:
                    break
                ds.append(a - b)
                if abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1e-3 * min(env.unit, 1.0)):
                    break
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if not ds:
            continue
        wide += 1
        # rounding errors are not stable under tiny changes of the values, a true difference is
        if len(ds) == 3 and max(ds) - min(ds) < 1e-2 * abs(ds[0]):
            return "different", (a, b)
    if hits:
        r = _guided(p, q, gate, seed, assume)
        if r is not None:
            return "different", r
    return "unknown", hits


def _guided(p, q, gate, seed, assume):
    """Values next to where a condition changes: the conditions met in an evaluation
    are solved for one of the symbols they depend on."""
    def values(env):
        if gate is not ONE and env.ev(gate) < 0.5 or any(env.ev(c) < 0.5 for c in assume):
            return None
        a, b = env.ev(p), env.ev(q)
        if isinstance(a, complex) or isinstance(b, complex) or abs(a) > 1e12 or abs(b) > 1e12:
            return None
        return a, b

    for t in range(4):
        env = NumEnv(f"{seed}-g{t}")
        env.conds = []
        try:
            if values(env) is None and not env.conds:
                continue
        except (ZeroDivisionError, ValueError, OverflowError):
            pass
        seen = set()
        for a, idx, v0 in env.conds[:40]:
            if a in seen:
                continue
            seen.add(a)
            if len(seen) > 8:
                break
            for key in list(env.cache):
                old = env.cache[key]
                if key[3] or isinstance(key[0], tuple) and key[0] and key[0][0] in ("idx", "ax", "bnd"):
                    continue

                def at(x):
                    e = NumEnv(env.seed)
                    e.given = {key: x}
                    e.idx = dict(idx)
                    return e.ev(a.args[0])
                try:
                    f1 = at(old + 1.0)
                    if abs(f1 - v0) < 1e-12:
                        continue
                    root = old - v0 / (f1 - v0)
                    if abs(at(root)) > 1e-9 * max(1.0, abs(v0)):
                        continue
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
                lo, hi = key[1], key[2]
                for x in (root / 2, root * 2, root - 0.5, root + 0.5, root):
                    if lo is not None and x < lo or hi is not None and x > hi:
                        continue
                    try:
                        ds = []
                        for shift in (0, 1e-12, -1e-12):
                            e = NumEnv(env.seed)
                            e.given = {k: w * (1 + shift * (1 if k == key and x != root else 0)) for k, w in env.cache.items() if not k[3]}
                            e.given[key] = x * (1 + shift) if x != root else x
                            r = values(e)
                            if r is None or abs(r[0] - r[1]) <= 1e-5 * max(abs(r[0]), abs(r[1]), 1e-9):
                                break
                            ds.append(r[0] - r[1])
                        if len(ds) == 3 and max(ds) - min(ds) < 1e-2 * abs(ds[0]):
                            return r
                    except (ZeroDivisionError, ValueError, OverflowError):
                        continue
    return None
