"""Model of the numpy and scipy parts a histogram fitting package uses."""
import numbers
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, Undecided, mk
import arrays as A
from arrays import ArrC, ShapeError, IndexErr
from values import *
from ops import is_np, base_ty, psub, pdiv, ppow, pfloor, pmod, p_or, p_xor, CMPF

ND_ATTRS = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy
ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean
min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield
setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view
__array__ __len__ __iter__ __getitem__ __setitem__ __add__ __mul__""".split())


# ---------------------------------------------------------------- helpers

def dt(ip, v, default="float"):
    """dtype argument -> 'float' | 'int' | 'bool' | 'obj'"""
    if v is None:
        return default
    v = ip.res(v)
    if v is NONE:
        return default
    n = None
    if isinstance(v, Cls):
        n = v.name
    elif isinstance(v, Str):
        n = v.lit
    elif isinstance(v, Ext):
        n = v.name.rsplit(".", 1)[-1]
        if n.startswith("dtype["):
            n = n[6:-1]
    if n is None:
        raise Undecided("dtype")
    n = n.replace("np", "")
    if n in ("single", "float32", "float16", "single", "half", "f4", "f2"):
        return A.SINGLE
    if n.startswith(("float", "double")) or n in ("f", "f8", "d", "floating"):
        return "float"
    if n.startswith(("int", "uint")) or n in ("i", "i8", "l"):
        return "int"
    if n.startswith("bool"):
        return "bool"
    if n.startswith("object") or n == "O":
        return "obj"
    raise Undecided("dtype " + n)


def cast(a, d):
    if isinstance(d, A.Single) and not isinstance(a.dtype, A.Single):
        return A.single(a)
    if a.dtype == d or d is None:
        return a
    if d == "bool":
        return A.fmap(lambda p: T.c_not(T.eq0(p)), a, "bool")
    if d == "int" and a.dtype == "float":
        return A.fmap(lambda p: T.fn("trunc", p), a, "int")
    return ArrC(a.axes, a.blocks, d)


def shape_of(ip, s):
    s = ip.res(s)
    if isinstance(s, Num):
        if base_ty(s.ty) == "float":
            ip.py_raise("TypeError", "'float' object cannot be interpreted as an integer")
        return [s.p]
    out = []
    for x in ip.concrete(s, "shape"):
        x = ip.res(x)
        if isinstance(x, Num) and base_ty(x.ty) == "float":
            ip.py_raise("TypeError", "'float' object cannot be interpreted as an integer")
        out.append(ip.num(x))
    return out


def axis_of(ip, ax, nd):
    c = ip.num(ax).const
    if c is None:
        raise Undecided("symbolic axis")
    k = int(c)
    if k < 0:
        k += nd
    if not 0 <= k < nd:
        ip.py_raise("ValueError", f"axis {int(c)} is out of bounds for array of dimension {nd}")
    return k


def arrlike(ip, v):
    """Content of an array-like, resolving iterators like numpy would not."""
    v = ip.res(v)
    return ip.as_arr(v)


def is_scalar(v):
    return isinstance(v, Num)


def out_param(ip, out, r):
    out = ip.res(out)
    if isinstance(out, Tup):
        out = ip.res(out.items[0])
    if not isinstance(out, ArrV):
        ip.py_raise("TypeError", "return arrays must be of ArrayType")
    tgt = ip.arr(out)
    b = A.bcast([r, tgt])[0]
    if b.shape != tgt.shape:
        raise ShapeError("non-broadcastable output operand")
    order = ["bool", "int", "float"]
    if order.index(r.dtype) > order.index(tgt.dtype):
        ip.py_raise("TypeError", f"Cannot cast ufunc output from dtype('{r.dtype}') to dtype('{tgt.dtype}')")
    ip.write_arr(out, b)
    return out


def rdt_float(*ds):
    return "float"


def rdt_prom(*ds):
    d = ds[0]
    for x in ds[1:]:
        d = A.promote(d, x)
    return d


def rdt_bool(*ds):
    return "bool"


def ufunc(name, f, n, rdt):
    def call(ip, *args, out=None, where=None, dtype=None, casting=None, order=None, subok=None):
        args = [ip.res(a) for a in args]
        if len(args) == n + 1 and out is None:
            out = args.pop()
        if len(args) != n:
            ip.py_raise("TypeError", f"{name}() takes from {n} to {n + 1} positional arguments but {len(args)} were given")
        if any(isinstance(a, MaskedV) for a in args):
            ms = [a.mask for a in args if isinstance(a, MaskedV)]
            if any(m.key() is not ms[0].key() for m in ms) or out is not None or where is not None:
                raise Undecided("selections with different masks")
            if any(isinstance(a, ArrV) for a in args):
                raise Undecided("selection combined with an array")
            r = call(ip, *[a.arr if isinstance(a, MaskedV) else a for a in args])
            return MaskedV(r, ms[0])
        for a in args:
            if a is NONE or isinstance(a, Str) or isinstance(a, Ref) and not isinstance(ip.content(a), ListC):
                if isinstance(a, Ref) and isinstance(ip.content(a), ObjC) and ip.content(a).cls.find("__array__")[0] is not None:
                    continue
                ip.py_raise("TypeError", f"ufunc '{name}' not supported for the input types")
        arrs = [ip.as_arr(a) for a in args]
        if any(a.dtype == "obj" for a in arrs):
            raise Undecided("object array")
        d = rdt(*[a.dtype for a in arrs])
        g = f
        if name.startswith("logical_"):
            arrs = [boolean(a) for a in arrs]
        if d == "bool" and name == "add":
            g = p_or
        r = A.ew(g, *arrs, dtype=d)
        if where is not None and ip.res(where) is not TRUE:
            w = ip.as_arr(where)
            if out is None:
                raise Undecided("where without out")
            o = ip.res(out)
            if isinstance(o, Tup):
                o = ip.res(o.items[0])
            if not isinstance(o, ArrV):
                ip.py_raise("TypeError", "return arrays must be of ArrayType")
            r = A.ew(T.ite, w, r, ip.arr(o), dtype=d)
        if out is not None and ip.res(out) is not NONE:
            return out_param(ip, out, r)
        if dtype is not None:
            r = cast(r, dt(ip, dtype, r.dtype))
        return ip.result(r)
    return call


def c_not_(p):
    return T.c_not(p)


def tru(p):
    return p


def boolean(a):
    """Array of truth values."""
    return a if a.dtype == "bool" else A.fmap(lambda p: T.c_not(T.eq0(p)), a, "bool")


def defined(q):
    """Condition that no negative power in q is taken of zero."""
    out = ONE
    groups = {}     # what is left without the indicators -> coefficient
    for m, c in q.t:
        rest = tuple(x for x in m if x[0].kind not in T.INDS)
        if any(e < 0 or a.kind == "fn" and a.args[0] == "inverse_of_zero" for a, e in rest):
            g = T.num(c)
            for a, e in m:
                if a.kind in T.INDS:
                    g = mul(g, atom(a))
            groups[rest] = add(groups.get(rest, ZERO), g)
    for rest, g in groups.items():
        if g is ZERO:
            continue
        there = T.c_not(T.eq0(g))
        for a, e in rest:
            if a.kind == "fn" and a.args[0] == "inverse_of_zero":
                out = mul(out, T.c_not(there))
            elif e < 0:
                z = T.eq0(a.args[0] if a.kind == "base" else atom(a))
                if z is not ZERO:
                    out = mul(out, T.c_not(mul(there, z)))
    return out


def sign(p):
    return add(T.lt0(neg(p)), neg(T.lt0(p)))


def isinf(p):
    if p.const is not None:
        return ZERO
    for x in (INF, neg(INF)):
        if p is x:
            return ONE
    if any(a.kind == "sym" and a.args[0] == "inf" for a in p.leaves if hasattr(a, "kind")):
        raise Undecided("test for infinity")
    return T.c_not(defined(p))


def is_nan(p):
    if p is NANP:
        return ONE
    return T.c_not(defined(p))


INF = T.num(float("inf"))
NANP = T.num(float("nan"))

UF = {
    "add": (add, 2, rdt_prom), "subtract": (psub, 2, rdt_prom), "multiply": (mul, 2, rdt_prom),
    "divide": (pdiv, 2, rdt_float), "true_divide": (pdiv, 2, rdt_float), "floor_divide": (pfloor, 2, rdt_prom),
    "power": (ppow, 2, rdt_prom), "float_power": (ppow, 2, rdt_float), "mod": (pmod, 2, rdt_prom), "remainder": (pmod, 2, rdt_prom),
    "maximum": (lambda a, b: T.fn("maximum", a, b), 2, rdt_prom), "minimum": (lambda a, b: T.fn("minimum", a, b), 2, rdt_prom),
    "fmax": (lambda a, b: T.fn("maximum", a, b), 2, rdt_prom), "fmin": (lambda a, b: T.fn("minimum", a, b), 2, rdt_prom),
    "hypot": (lambda a, b: T.sqrt(add(mul(a, a), mul(b, b))), 2, rdt_float),
    "sqrt": (T.sqrt, 1, rdt_float), "log": (lambda p: T.fn("log", p), 1, rdt_float), "log1p": (lambda p: T.fn("log1p", p), 1, rdt_float),
    "exp": (lambda p: T.fn("exp", p), 1, rdt_float), "expm1": (lambda p: psub(T.fn("exp", p), ONE), 1, rdt_float),
    "abs": (lambda p: T.fn("abs", p), 1, rdt_prom), "absolute": (lambda p: T.fn("abs", p), 1, rdt_prom),
    "fabs": (lambda p: T.fn("abs", p), 1, rdt_float),
    "square": (lambda p: mul(p, p), 1, rdt_prom), "negative": (neg, 1, rdt_prom), "positive": (lambda p: p, 1, rdt_prom),
    "reciprocal": (lambda p: T.power(p, -1), 1, rdt_prom), "sign": (sign, 1, rdt_prom),
    "rint": (lambda p: T.fn("rint", p), 1, rdt_float), "floor": (lambda p: T.fn("floor", p), 1, rdt_float),
    "ceil": (lambda p: T.fn("ceil", p), 1, rdt_float), "trunc": (lambda p: T.fn("trunc", p), 1, rdt_float),
    "isnan": (is_nan, 1, rdt_bool), "isinf": (isinf, 1, rdt_bool),
    "isfinite": (lambda p: T.c_not(p_or(isinf(p), is_nan(p))), 1, rdt_bool),
    "equal": (CMPF["Eq"], 2, rdt_bool), "not_equal": (CMPF["NotEq"], 2, rdt_bool), "less": (CMPF["Lt"], 2, rdt_bool),
    "less_equal": (CMPF["LtE"], 2, rdt_bool), "greater": (CMPF["Gt"], 2, rdt_bool), "greater_equal": (CMPF["GtE"], 2, rdt_bool),
    "logical_and": (lambda a, b: mul(tru(a), tru(b)), 2, rdt_bool), "logical_or": (lambda a, b: p_or(tru(a), tru(b)), 2, rdt_bool),
    "logical_not": (lambda a: T.c_not(tru(a)), 1, rdt_bool), "logical_xor": (lambda a, b: p_xor(tru(a), tru(b)), 2, rdt_bool),
}
for _n in ("sin", "cos", "tan", "tanh", "arctan", "log2", "log10", "cbrt", "arcsin", "arccos", "sinh", "cosh", "exp2"):
    UF[_n] = ((lambda n: lambda p: T.fn(n, p))(_n), 1, rdt_float)


# ---------------------------------------------------------------- creation

def np_full_like(v):
    def f(ip, a, dtype=None, order=None, subok=None, shape=None):
        a = ip.res(a)
        if isinstance(a, MaskedV) and shape is None:
            return MaskedV(f(ip, a.arr, dtype), a.mask)
        c = ip.as_arr(a)
        d = dt(ip, dtype, c.dtype)
        if shape is not None:
            return ip.new_arr(A.full(shape_of(ip, shape), v, d))
        return ip.new_arr(A.fmap(lambda p: v, c, d))
    return f


def np_fill(v):
    def f(ip, shape, dtype=None, order=None):
        return ip.new_arr(A.full(shape_of(ip, shape), v, dt(ip, dtype)))
    return f


def np_full(ip, shape, fill_value, dtype=None, order=None):
    a = ip.as_arr(fill_value)
    d = dt(ip, dtype, a.dtype)
    if a.ndim == 0:
        return ip.new_arr(A.full(shape_of(ip, shape), a.blocks[()], d))
    z = A.full(shape_of(ip, shape), ZERO, d)
    return ip.new_arr(cast(A.ew(add, z, a), d))


def np_full_like2(ip, a, fill_value, dtype=None):
    a = ip.res(a)
    if isinstance(a, MaskedV):
        return MaskedV(np_full_like2(ip, a.arr, fill_value, dtype), a.mask)
    c = ip.as_arr(a)
    d = dt(ip, dtype, c.dtype)
    fv = ip.as_arr(fill_value)
    if d == "int" and fv.dtype == "float":
        fv = cast(fv, "int")
    return ip.new_arr(A.ew(lambda x, y: y, c, fv, dtype=d))


def np_array(ip, obj, dtype=None, copy=None, order=None, ndmin=None, subok=None):
    obj = own_array(ip, obj)
    if isinstance(obj, MaskedV):
        return obj
    a = ip.as_arr(obj)
    a = cast(a, dt(ip, dtype, a.dtype))
    if ndmin is not None:
        while a.ndim < int(ip.num(ndmin).const):
            a = A.newaxis(a, 0)
    if copy is not None and ip.res(copy) is FALSE and isinstance(obj, ArrV):
        return np_asarray(ip, obj, dtype)
    return ip.new_arr(a)


def own_array(ip, a):
    """The array an object of a class with __array__ stands for."""
    a = ip.res(a)
    c = ip.content(a) if isinstance(a, Ref) else None
    if isinstance(c, ObjC) and c.cls.find("__array__")[0] is not None:
        return ip.res(ip.call(ip.getattr(a, "__array__"), [], {}))
    return a


def np_asarray(ip, a, dtype=None, order=None):
    a = own_array(ip, a)
    if isinstance(a, MaskedV):
        return a
    if isinstance(a, ArrV):
        c = ip.arr(a)
        if dt(ip, dtype, c.dtype) == c.dtype:
            return a
    c = ip.as_arr(a)
    return ip.new_arr(cast(c, dt(ip, dtype, c.dtype)))


def np_atleast(n):
    def f(ip, *arys):
        out = []
        for a in arys:
            a = ip.res(a)
            c = ip.as_arr(a)
            if c.ndim >= n and isinstance(a, ArrV):
                out.append(a)
                continue
            while c.ndim < n:
                c = A.newaxis(c, 0)
            out.append(ip.new_arr(c))
        return out[0] if len(out) == 1 else ip.new_list(out)
    return f


def np_copy(ip, a, order=None, subok=None):
    a = ip.res(a)
    if isinstance(a, MaskedV):
        return a
    return ip.new_arr(ip.as_arr(a))


def np_arange(ip, *a, dtype=None):
    a = [ip.res(x) for x in a]
    lo, st = ZERO, ONE
    d = "int" if all(isinstance(x, Num) and base_ty(x.ty) == "int" for x in a) else "float"
    if len(a) == 1:
        hi = ip.num(a[0])
    else:
        lo, hi = ip.num(a[0]), ip.num(a[1])
        if len(a) > 2:
            st = ip.num(a[2])
    if d == "float" and not (T.is_int(psub(hi, lo)) and st is ONE):
        raise Undecided("arange of floats")
    if st is ONE:
        n = psub(hi, lo)
    elif st.const is not None and n_const(psub(hi, lo)):
        n = T.num(len(range(0, int(psub(hi, lo).const), int(st.const))))
    else:
        raise Undecided("arange with a step")
    if T.sign_lt0(n) is None:
        raise Undecided("arange length")
    if T.sign_lt0(n) is True:
        n = ZERO
    return ip.new_arr(cast(A.build([n], lambda i: add(lo, mul(i, st)), d), dt(ip, dtype, d)))


def n_const(p):
    return p.const is not None


def np_linspace(ip, start, stop, num=intv(50), endpoint=TRUE, retstep=FALSE, dtype=None, axis=None):
    s, e = ip.res(start), ip.res(stop)
    if not (isinstance(ip.res(num), Num)) or base_ty(ip.res(num).ty) == "float":
        ip.py_raise("TypeError", "object of type 'float' cannot be interpreted as an integer")
    n = ip.num(num)
    a, b = ip.num(s), ip.num(e)
    c = n.const
    if c is not None and c < 0:
        ip.py_raise("ValueError", "Number of samples must be non-negative")
    ep = ip.decide(ip.truth(endpoint))
    if c is not None and c <= 1:
        r = A.build([n], lambda i: a)
        step = NANP
    else:
        den = psub(n, ONE) if ep else n
        step = mul(psub(b, a), T.power(den, -1))
        r = A.build([n], lambda i: add(a, mul(i, step)))
    r = ip.new_arr(cast(r, dt(ip, dtype, "float")))
    if ip.decide(ip.truth(retstep)):
        return Tup([r, Num(step, "npfloat")])
    return r


def np_eye(ip, N, M=NONE, k=None, dtype=None):
    n = ip.num(N)
    m = n if ip.res(M) is NONE else ip.num(M)
    if k is not None and ip.num(k) is not ZERO:
        raise Undecided("eye with an offset")
    if n is m:
        return ip.new_arr(A.diag(A.full([n], ONE, dt(ip, dtype))))
    return ip.new_arr(A.build([n, m], lambda i, j: T.eq(i, j), dt(ip, dtype)))


def np_diag(ip, v, k=None):
    if k is not None and ip.num(k) is not ZERO:
        raise Undecided("diag with an offset")
    return ip.new_arr(A.diag(ip.as_arr(v)))


# ---------------------------------------------------------------- reductions

def masked_fill(ip, m, v):
    a = ip.as_arr(m.arr)
    return A.ew(lambda c, x: T.ite(c, x, v), m.mask, a, dtype=a.dtype)


def red_axes(ip, axis, nd):
    if axis is None:
        return None
    axis = ip.res(axis)
    if axis is NONE:
        return None
    if isinstance(axis, (Tup,)):
        return sorted({axis_of(ip, x, nd) for x in axis.items}, reverse=True)
    return [axis_of(ip, axis, nd)]


def reduce_with(ip, a, axis, keepdims, one):
    """one(array, d) -> array with axis d removed"""
    ax = red_axes(ip, axis, a.ndim)
    if ax is None:
        ax = list(range(a.ndim - 1, -1, -1))
    for d in ax:
        a = one(a, d)
    if keepdims is not None and ip.decide(ip.truth(keepdims)):
        for d in sorted(ax):
            a = A.newaxis(a, d)
    return a


def iter_arr(ip, v):
    """Array-like; an iterator of arrays stays an error as in numpy."""
    v = ip.res(v)
    if isinstance(v, Ref) and isinstance(ip.content(v), IterC):
        return A.scalar(ZERO, "obj")
    if isinstance(v, Ref) and isinstance(ip.content(v), DictC):
        ip.py_raise("TypeError", "unsupported operand type(s) for a reduction of a dict")
    return ip.as_arr(v)


def np_sum(ip, a, axis=None, dtype=None, out=None, keepdims=None, initial=None, where=None):
    v = ip.res(a)
    if isinstance(v, MaskedV):
        if axis is not None and ip.res(axis) is not NONE:
            raise Undecided("sum of a selection along an axis")
        c = masked_fill(ip, v, ZERO)
    elif isinstance(v, Ref) and isinstance(ip.content(v), IterC):
        import pylib
        return pylib.b_sum(ip, v)
    else:
        c = iter_arr(ip, v)
    if c.dtype == "obj":
        raise Undecided("object array")
    if where is not None:
        c = A.ew(lambda w, x: T.ite(w, x, ZERO), ip.as_arr(where), c, dtype=c.dtype)
    if c.dtype == "bool":
        c = ArrC(c.axes, c.blocks, "int")
    r = reduce_with(ip, c, axis, keepdims, A.sum_axis)
    if initial is not None:
        k = ip.num(initial)
        r = A.fmap(lambda p: add(p, k), r)
    if out is not None and ip.res(out) is not NONE:
        return out_param(ip, out, r)
    return ip.result(r)


def axis_len(a, d):
    return A.total(a.axes[d])


def np_mean(ip, a, axis=None, dtype=None, keepdims=None):
    v = ip.res(a)
    if isinstance(v, MaskedV):
        n = A.sum_all(v.mask)
        s = A.sum_all(masked_fill(ip, v, ZERO))
        return Num(pdiv(s, n), "npfloat")
    c = iter_arr(ip, v)

    def one(x, d):
        n = axis_len(x, d)
        return A.fmap(lambda p: pdiv(p, n), A.sum_axis(x, d), "float")
    return ip.result(reduce_with(ip, c, axis, keepdims, one))


def np_var_of(ip, a, axis, ddof, keepdims, root):
    c = iter_arr(ip, a)
    dd = ZERO if ddof is None else ip.num(ddof)
    axs = red_axes(ip, axis, c.ndim)
    if axs is None:
        c = A.ravel(c) if c.ndim != 1 else c
        axs = [0]
    if len(axs) != 1:
        raise Undecided("variance over several axes")
    d = axs[0]
    n = axis_len(c, d)
    mean = A.newaxis(A.fmap(lambda p: pdiv(p, n), A.sum_axis(c, d)), d)
    sq = A.ew(lambda x, m: mul(psub(x, m), psub(x, m)), c, mean, dtype="float")
    r = A.fmap(lambda p: pdiv(p, psub(n, dd)), A.sum_axis(sq, d), "float")
    if root:
        r = A.fmap(T.sqrt, r)
    if keepdims is not None and ip.decide(ip.truth(keepdims)):
        r = A.newaxis(r, d)
    return ip.result(r)


def np_std(ip, a, axis=None, dtype=None, ddof=None, keepdims=None):
    return np_var_of(ip, a, axis, ddof, keepdims, True)


def np_var(ip, a, axis=None, dtype=None, ddof=None, keepdims=None):
    return np_var_of(ip, a, axis, ddof, keepdims, False)


def any_axis(a, d):
    rest = a.axes[:d] + a.axes[d + 1:]
    blocks = {}
    for key in A.keys(rest):
        tot = ZERO
        for s, L in enumerate(a.axes[d]):
            v = tru(a.blocks[key[:d] + (s,) + key[d:]])
            if L is ONE:
                tot = T.c_or(tot, v)
            else:
                f = T.fresh_idx(L)
                tot = T.c_or(tot, T.any_of(L, f, T.subst(v, {mk("ax", d, L): atom(f)})))
        mp = {}
        for dd in range(d, len(rest)):
            L = rest[dd][key[dd]]
            if L is not ONE:
                mp[mk("ax", dd + 1, L)] = A.ax(dd, L)
        blocks[key] = T.subst(tot, mp) if mp else tot
    return ArrC(rest, blocks, "bool")


def any_all(a):
    while a.ndim:
        a = any_axis(a, a.ndim - 1)
    return tru(a.blocks[()])


def np_any(ip, a, axis=None, out=None, keepdims=None):
    v = ip.res(a)
    c = masked_fill(ip, v, ZERO) if isinstance(v, MaskedV) else iter_arr(ip, v)
    if c.dtype == "obj":
        raise Undecided("object array")
    c = boolean(c)
    if c.ndim == 0:
        return Num(tru(c.blocks[()]), "npbool")
    return ip.result(reduce_with(ip, c, axis, keepdims, any_axis))


def np_all(ip, a, axis=None, out=None, keepdims=None):
    v = ip.res(a)
    c = masked_fill(ip, v, ONE) if isinstance(v, MaskedV) else iter_arr(ip, v)
    if c.dtype == "obj":
        raise Undecided("object array")
    c = A.fmap(T.c_not, boolean(c), "bool")
    if c.ndim == 0:
        return Num(T.c_not(c.blocks[()]), "npbool")
    r = reduce_with(ip, c, axis, keepdims, any_axis)
    return ip.result(A.fmap(T.c_not, r))


def prod_axis(a, d):
    if not all(L is ONE for L in a.axes[d]):
        raise Undecided("product over a symbolic axis")
    n = len(a.axes[d])
    r = None
    for s in range(n):
        e = A.elem_at(a, d, T.num(s))
        r = e if r is None else A.ew(mul, r, e)
    if r is None:
        rest = a.axes[:d] + a.axes[d + 1:]
        r = ArrC(rest, {k: ONE for k in A.keys(rest)}, a.dtype)
    return r


def np_prod(ip, a, axis=None, dtype=None, keepdims=None):
    v = ip.res(a)
    if isinstance(v, (Tup, Ref)) and not ip.items(v):
        return Num(ONE, "npfloat")
    c = iter_arr(ip, v)
    if c.dtype == "bool":
        c = ArrC(c.axes, c.blocks, "int")
    return ip.result(reduce_with(ip, c, axis, keepdims, prod_axis))


def ext_axis(name):
    def one(a, d):
        if all(L is ONE for L in a.axes[d]):
            n = len(a.axes[d])
            if not n:
                raise ShapeError(f"zero-size array to reduction operation {name}")
            r = A.elem_at(a, d, ZERO)
            for s in range(1, n):
                r = A.ew(lambda x, y: T.fn("maximum" if name == "max" else "minimum", x, y), r, A.elem_at(a, d, T.num(s)))
            return r
        if a.ndim != 1:
            raise Undecided("extremum along a symbolic axis")
        if len(a.axes[0]) == 1:
            q = a.blocks[(0,)]
            if not any(x is mk("ax", 0, a.axes[0][0]) for x in all_axes(q)):
                return A.scalar(q, a.dtype)
        return A.scalar(T.fn(name, a.key()), a.dtype)
    return one


def all_axes(q):
    return [x for x in q.leaves]


def np_ext(name):
    one = ext_axis(name)

    def f(ip, a, axis=None, out=None, keepdims=None, initial=None):
        v = ip.res(a)
        if isinstance(v, MaskedV):
            raise Undecided("extremum of a selection")
        c = iter_arr(ip, v)
        if (axis is None or ip.res(axis) is NONE) and c.ndim > 1 and not all(L is ONE for x in c.axes for L in x):
            c = A.ravel(c)
        return ip.result(reduce_with(ip, c, axis, keepdims, one))
    return f


def np_cumsum(ip, a, axis=None, dtype=None, out=None):
    c = ip.as_arr(a)
    if axis is None or ip.res(axis) is NONE:
        c = A.ravel(c)
        d = 0
    else:
        d = axis_of(ip, axis, c.ndim)
    if c.dtype == "bool":
        c = ArrC(c.axes, c.blocks, "int")
    rest = [s for i, s in enumerate(c.axes) if i != d]
    blocks = {}
    for key in A.keys(rest):
        tot = ZERO
        for s, L in enumerate(c.axes[d]):
            k = key[:d] + (s,) + key[d:]
            v = c.blocks[k]
            if L is ONE:
                tot = add(tot, v)
                blocks[k] = tot
            else:
                x = mk("ax", d, L)
                n1 = add(atom(x), ONE)
                i = T.fresh_idx(n1)
                blocks[k] = add(tot, T.make_sum(n1, i, T.subst(v, {x: atom(i)})))
                j = T.fresh_idx(L)
                tot = add(tot, T.make_sum(L, j, T.subst(v, {x: atom(j)})))
    return ip.new_arr(ArrC(c.axes, blocks, c.dtype))


def np_diff(ip, a, n=None, axis=None):
    c = ip.as_arr(a)
    if n is not None and ip.num(n) is not ONE:
        raise Undecided("higher differences")
    d = c.ndim - 1 if axis is None else axis_of(ip, axis, c.ndim)
    N = axis_len(c, d)
    hi = A.take_range(c, d, ONE, N)
    lo = A.take_range(c, d, ZERO, psub(N, ONE))
    return ip.new_arr(A.ew(psub, hi, lo, dtype=c.dtype))


# ---------------------------------------------------------------- linear algebra

def np_matmul(ip, a, b, out=None):
    r = ip.result(A.matmul(ip.as_arr(a), ip.as_arr(b)))
    if out is not None and ip.res(out) is not NONE:
        return out_param(ip, out, ip.as_arr(r))
    return r


def np_dot(ip, a, b, out=None):
    x, y = ip.as_arr(a), ip.as_arr(b)
    if x.ndim == 0 or y.ndim == 0:
        return ip.result(A.ew(mul, x, y, dtype=A.promote(x.dtype, y.dtype)))
    return np_matmul(ip, a, b, out)


def np_inner(ip, a, b):
    x, y = ip.as_arr(a), ip.as_arr(b)
    if x.ndim == 0 or y.ndim == 0:
        return np_dot(ip, a, b)
    return ip.result(A.matmul(x, A.transpose(y) if y.ndim == 2 else y))


def np_outer(ip, a, b, out=None):
    return ip.new_arr(A.outer(ip.as_arr(a), ip.as_arr(b)))


def np_tensordot(ip, a, b, axes=intv(2)):
    ax = ip.res(axes)
    x, y = ip.as_arr(a), ip.as_arr(b)
    if isinstance(ax, Num) and ax.p is ONE:
        return ip.result(A.matmul(x, y))
    if isinstance(ax, Num) and ax.p is ZERO:
        letters = "abcdefgh"
        return einsum(ip, [x, y], [letters[:x.ndim], letters[x.ndim:x.ndim + y.ndim]], letters[:x.ndim + y.ndim])
    if isinstance(ax, Num):
        k = int(ax.p.const)
        l1 = "abcdefgh"[:x.ndim]
        l2 = l1[x.ndim - k:] + "ijklmnop"[:y.ndim - k]
        return einsum(ip, [x, y], [l1, l2], l1[:x.ndim - k] + l2[k:])
    p, q = [ip.res(v) for v in ip.concrete(ax)]
    p = [axis_of(ip, v, x.ndim) for v in ([p] if isinstance(p, Num) else ip.concrete(p))]
    q = [axis_of(ip, v, y.ndim) for v in ([q] if isinstance(q, Num) else ip.concrete(q))]
    l1 = list("abcdefgh"[:x.ndim])
    l2 = list("ijklmnop"[:y.ndim])
    for i, j in zip(p, q):
        l2[j] = l1[i]
    o = [c for i, c in enumerate(l1) if i not in p] + [c for j, c in enumerate(l2) if j not in q]
    return einsum(ip, [x, y], ["".join(l1), "".join(l2)], "".join(o))


def einsum(ip, ops, ins, out):
    order = []
    for s in [out] + ins:
        for c in s:
            if c not in order:
                order.append(c)
    prod = None
    for a, s in zip(ops, ins):
        if len(s) != a.ndim:
            ip.py_raise("ValueError", "einstein sum subscripts string does not match operand")
        if len(set(s)) < len(s):
            if len(s) == 2:
                a, s = A.diag(a), s[0]
            else:
                raise Undecided("repeated subscripts")
        have = [c for c in order if c in s]
        a = A.transpose(a, tuple(s.index(c) for c in have)) if len(s) > 1 else a
        for d, c in enumerate(order):
            if c not in s:
                a = A.newaxis(a, d)
        prod = a if prod is None else A.ew(mul, prod, a, dtype=A.promote(prod.dtype, a.dtype))
    while prod.ndim > len(out):
        prod = A.sum_axis(prod, prod.ndim - 1)
    return ip.result(prod)


def np_einsum(ip, spec, *ops, optimize=None):
    s = ip.res(spec)
    if not isinstance(s, Str) or s.lit is None or "." in s.lit:
        raise Undecided("einsum subscripts")
    t = s.lit.replace(" ", "")
    l, _, o = t.partition("->")
    ins = l.split(",")
    if "->" not in t:
        cs = [c for c in "".join(ins)]
        o = "".join(sorted(c for c in set(cs) if cs.count(c) == 1))
    if len(ins) != len(ops):
        ip.py_raise("ValueError", "operand count does not match subscripts")
    return einsum(ip, [ip.as_arr(x) for x in ops], ins, o)


def inverse(a):
    """Inverse of a (block structured) matrix."""
    if a.ndim != 2:
        raise ShapeError("must be 2-dimensional")
    if a.shape[0] is not a.shape[1]:
        raise ShapeError("Last 2 dimensions of the array must be square")
    a = A.split_axis(a, 0, A.bounds(a.axes[1])[:-1])
    a = A.split_axis(a, 1, A.bounds(a.axes[0])[:-1])
    segs = a.axes[0]
    n = len(segs)
    comp = list(range(n))
    for (i, j), v in a.blocks.items():
        if i != j and v is not ZERO:
            x, y = comp[i], comp[j]
            if x != y:
                comp = [min(x, y) if c in (x, y) else c for c in comp]
    blocks = {k: ZERO for k in a.blocks}
    for c in sorted(set(comp)):
        mem = [i for i in range(n) if comp[i] == c]
        if len(mem) == 1:
            i = mem[0]
            L = segs[i]
            v = a.blocks[(i, i)]
            if L is ONE:
                blocks[(i, i)] = T.power(v, -1)
                continue
            e = T.eq0(add(A.ax(0, L), neg(A.ax(1, L))))
            if mul(v, T.c_not(e)) is ZERO:
                d = T.subst(v, {mk("ax", 1, L): A.ax(0, L)})
                blocks[(i, i)] = mul(e, T.power(d, -1))
                continue
        axes = (tuple(segs[i] for i in mem),) * 2
        sub = ArrC(axes, {(p, q): a.blocks[(mem[p], mem[q])] for p in range(len(mem)) for q in range(len(mem))}, "float")
        key = sub.key()
        offs = A.offsets(axes[0])
        for p, i in enumerate(mem):
            for q, j in enumerate(mem):
                blocks[(i, j)] = T.fn("inv", key, add(offs[p], A.loc(0, segs[i])), add(offs[q], A.loc(1, segs[j])))
    return ArrC(a.axes, blocks, "float")


def la_inv(ip, a, *x, **k):
    return ip.new_arr(inverse(ip.as_arr(a)))


def la_pinv(ip, a, rcond=None, hermitian=None, rtol=None, cond=None, atol=None, return_rank=None, check_finite=None):
    """The inverse of a regular matrix, unless small singular values are cut off noticeably."""
    c = ip.as_arr(a)
    cuts = [ip.num(x) for x in (rcond, rtol, cond, atol) if x is not None and ip.res(x) is not NONE]
    inv = inverse(c)
    if all(x.const is not None and abs(x.const) <= T.Fr(1, 10 ** 9) for x in cuts):
        return ip.new_arr(inv)
    if inv.key() == c.key():
        return ip.new_arr(inv)
    return ip.new_arr(A.build_axes(inv.axes, lambda i, j: T.fn("pinv", c.key(), i, j, *cuts)))


def la_solve(ip, a, b, *x, **k):
    return ip.result(A.matmul(inverse(ip.as_arr(a)), ip.as_arr(b)))


def la_norm(ip, x, ord=None, axis=None, keepdims=None):
    c = ip.as_arr(x)
    if ord is not None and ip.res(ord) is not NONE:
        if ip.num(ord) is not T.num(2) or len(c.axes) != 1 and (axis is None or ip.res(axis) is NONE):
            raise Undecided("norm")
    sq = A.fmap(lambda p: mul(p, p), c, "float")
    if axis is None or ip.res(axis) is NONE:
        if keepdims is not None and ip.decide(ip.truth(keepdims)):
            raise Undecided("norm")
        return Num(T.sqrt(A.sum_all(sq)), "npfloat")
    if isinstance(ip.res(axis), Tup):
        raise Undecided("norm")
    r = reduce_with(ip, sq, axis, keepdims, A.sum_axis)
    return ip.result(A.fmap(T.sqrt, r))


def np_trace(ip, a):
    return Num(A.sum_all(A.diag(ip.as_arr(a))), "npfloat")


def np_block_diag(ip, *arrs):
    return ip.new_arr(A.block_diag([ip.as_arr(a) for a in arrs]))


def block_diag_raw(ip, args, kw):
    out = []
    for x in args:
        if isinstance(x, MapSeg):
            raise Undecided("block_diag of a symbolic number of blocks")
        out.append(x)
    return ip.native(np_block_diag, ip, *out)


def multi_dot(ip, arrays):
    it = ip.concrete(arrays)
    r = ip.as_arr(it[0])
    for x in it[1:]:
        r = A.matmul(r, ip.as_arr(x))
    return ip.result(r)


# ---------------------------------------------------------------- shape

def view_or_new(ip, v, view):
    v = ip.res(v)
    if isinstance(v, ArrV):
        w = ArrV(v.cell, v.sub, v.views + (view,))
        ip.arr(w)
        return w
    return ip.new_arr(ip.apply_view(ip.as_arr(v), view))


def order_of(ip, order):
    if order is None or ip.res(order) is NONE:
        return "C"
    o = ip.res(order)
    if isinstance(o, Str) and o.lit in ("C", "F", "K", "A"):
        return o.lit
    raise Undecided("memory order")


def raveled(ip, c, order):
    """One-dimensional contents in the given order. Arrays may be stored in either order,
    so that the order of the memory is unknown."""
    if order == "C" or c.ndim < 2:
        return A.ravel(c)
    f = A.ravel(A.transpose(c))
    if order == "F":
        return f
    flag = Num(T.bsym("stored by columns"), "bool")
    return ip.arr(np_where(ip, flag, ip.new_arr(f), ip.new_arr(A.ravel(c))))


def np_reshape(ip, a, *shape, order=None, newshape=None):
    if newshape is not None:
        shape = (newshape,)
    o = order_of(ip, order)
    s = shape_of(ip, shape[0]) if len(shape) == 1 else [ip.num(x) for x in shape]
    a = ip.res(a)
    c = ip.as_arr(a)
    r = A.reshape(c, s)
    if o != "C" and (c.ndim > 1 or r.ndim > 1):
        if o != "F":
            raise Undecided("memory order")
        return ip.new_arr(A.transpose(A.reshape(raveled(ip, c, "F"), list(reversed(r.shape)))))
    return view_or_new(ip, a, ("reshape", tuple(r.shape)))


def np_ravel(ip, a, order=None):
    o = order_of(ip, order)
    a = own_array(ip, a)
    if isinstance(a, MaskedV):
        return a
    c = ip.as_arr(a)
    if o != "C" and c.ndim > 1:
        return ip.new_arr(raveled(ip, c, o))
    n = ONE
    for s in c.shape:
        n = mul(n, s)
    return view_or_new(ip, a, ("reshape", (n,)))


def nd_flatten(ip, a, order=None):
    o = order_of(ip, order)
    if isinstance(a, MaskedV):
        return a
    return ip.new_arr(raveled(ip, ip.as_arr(a), o))


def np_transpose(ip, a, *axes):
    a = ip.res(a)
    c = ip.as_arr(a)
    perm = None
    if axes and ip.res(axes[0]) is not NONE:
        ax = ip.concrete(axes[0]) if len(axes) == 1 and not isinstance(ip.res(axes[0]), Num) else axes
        perm = tuple(axis_of(ip, x, c.ndim) for x in ax)
    if c.ndim < 2:
        return a if isinstance(a, ArrV) else ip.new_arr(c)
    return view_or_new(ip, a, ("T", perm))


def np_swapaxes(ip, a, i, j):
    c = ip.as_arr(a)
    i, j = axis_of(ip, i, c.ndim), axis_of(ip, j, c.ndim)
    perm = list(range(c.ndim))
    perm[i], perm[j] = perm[j], perm[i]
    return view_or_new(ip, a, ("T", tuple(perm)))


def np_squeeze(ip, a, axis=None):
    c = ip.as_arr(a)
    specs = []
    for d in range(c.ndim):
        if len(c.axes[d]) == 1 and c.axes[d][0] is ONE and (axis is None or d == axis_of(ip, axis, c.ndim)):
            specs.append(("i", ZERO))
        else:
            specs.append(("all",))
    return view_or_new(ip, a, ("idx", tuple(specs)))


def np_expand_dims(ip, a, axis):
    c = ip.as_arr(a)
    d = axis_of(ip, axis, c.ndim + 1)
    return view_or_new(ip, a, ("idx", (("all",),) * d + (("new",),)))


def seq_arrays(ip, v):
    """List of arrays of a concatenation; families become stacked arrays."""
    out = []
    v = ip.res(v)
    if isinstance(v, ArrV):
        c = ip.arr(v)
        if all(s is ONE for s in c.axes[0]):
            return [A.elem_at(c, 0, T.num(i)) for i in range(len(c.axes[0]))]
        if c.ndim == 2:
            return [A.merge_axes(c, 0)]
        raise Undecided("concatenation along a symbolic axis")
    for x in ip.items(v):
        if isinstance(x, PreSeg):
            raise Undecided("loop carried list")
        if isinstance(x, MapSeg):
            st = ip.as_arr(Tup([x]))
            if st.ndim < 2:
                raise ShapeError("zero-dimensional arrays cannot be concatenated")
            out.append(("fam", st))
        else:
            out.append(ip.as_arr(x))
    return out


def np_concatenate(ip, arrays, axis=intv(0), out=None, dtype=None):
    parts = seq_arrays(ip, arrays)
    if not parts:
        ip.py_raise("ValueError", "need at least one array to concatenate")
    axv = ip.res(axis)
    if axv is NONE:
        parts = [A.ravel(p if not isinstance(p, tuple) else p[1]) for p in parts]
        d = 0
    else:
        nd = parts[0][1].ndim - 1 if isinstance(parts[0], tuple) else parts[0].ndim
        if nd == 0:
            ip.py_raise("ValueError", "zero-dimensional arrays cannot be concatenated")
        d = axis_of(ip, axis, nd)
    res = []
    for p in parts:
        if isinstance(p, tuple):
            if d != 0:
                raise Undecided("concatenation of a family")
            res.append(A.merge_axes(p[1], 0))
        else:
            if p.ndim == 0:
                ip.py_raise("ValueError", "zero-dimensional arrays cannot be concatenated")
            res.append(p)
    r = A.concat(res, d)
    return ip.new_arr(cast(r, dt(ip, dtype, r.dtype)))


def np_stack(ip, arrays, axis=intv(0), out=None):
    it = ip.items(arrays)
    a = ip.as_arr(arrays)
    k = axis_of(ip, axis, a.ndim)
    if k == 0:
        return ip.new_arr(a)
    perm = list(range(1, a.ndim))
    perm.insert(k, 0)
    return ip.new_arr(A.transpose(a, tuple(perm)))


def np_vstack(ip, tup):
    parts = seq_arrays(ip, tup)
    out = []
    for p in parts:
        if isinstance(p, tuple):
            out.append(p[1] if p[1].ndim == 2 else A.merge_axes(p[1], 0))
        else:
            while p.ndim < 2:
                p = A.newaxis(p, 0)
            out.append(p)
    if not out:
        ip.py_raise("ValueError", "need at least one array to concatenate")
    return ip.new_arr(A.concat(out, 0))


def np_hstack(ip, tup):
    parts = seq_arrays(ip, tup)
    out = []
    for p in parts:
        if isinstance(p, tuple):
            if p[1].ndim != 2:
                raise Undecided("hstack of a family")
            out.append(A.merge_axes(p[1], 0))
        else:
            out.append(p if p.ndim else A.newaxis(p, 0))
    if not out:
        ip.py_raise("ValueError", "need at least one array to concatenate")
    return ip.new_arr(A.concat(out, 0 if out[0].ndim == 1 else 1))


def np_column_stack(ip, tup):
    it = ip.items(tup)
    if any(isinstance(x, (MapSeg, PreSeg)) for x in it):
        return ip.new_arr(A.transpose(ip.as_arr(tup)))
    out = []
    for x in it:
        a = ip.as_arr(x)
        out.append(A.newaxis(a, 1) if a.ndim == 1 else a)
    return ip.new_arr(A.concat(out, 1))


def np_append(ip, arr, values, axis=NONE):
    a, b = ip.as_arr(arr), ip.as_arr(values)
    if ip.res(axis) is NONE:
        return ip.new_arr(A.concat([A.ravel(a), A.ravel(b)], 0))
    return ip.new_arr(A.concat([a, b], axis_of(ip, axis, a.ndim)))


def split_views(ip, v, pts, n, d):
    """Views between consecutive split points."""
    v = ip.res(v)
    if not isinstance(v, ArrV):
        v = ip.new_arr(ip.as_arr(v))
    out = []
    bounds = [ZERO] + pts + [n]
    for lo, hi in zip(bounds, bounds[1:]):
        if A.le_(lo, hi) is None:
            raise Undecided("order of split points")
        if A.le_(hi, n) is None:
            raise Undecided("split point beyond the end")
        if A.le_(hi, n) is False:
            hi = n
        if A.le_(lo, n) is False:
            lo = n
        if A.le_(lo, hi) is False:
            hi = lo
        out.append(ArrV(v.cell, v.sub, v.views + (("idx", (("all",),) * d + (("r", lo, hi),)),)))
    return ip.new_list(out)


def np_split(strict):
    def f(ip, ary, indices_or_sections, axis=intv(0)):
        a = ip.as_arr(ary)
        d = axis_of(ip, axis, a.ndim)
        n = axis_len(a, d)
        s = ip.res(indices_or_sections)
        if isinstance(s, Num):
            k = s.p
            if base_ty(s.ty) == "float":
                ip.py_raise("TypeError", "'float' object cannot be interpreted as an integer")
            q = A.poly_div(n, k)
            if k.const is None:
                if q is None:
                    raise Undecided("split into a symbolic number of parts")
                v = ip.res(ary)
                if not isinstance(v, ArrV):
                    v = ip.new_arr(a)
                i = T.fresh_idx(k)
                lo = mul(atom(i), q)
                view = ("idx", (("all",),) * d + (("r", lo, add(lo, q)),))
                w = ArrV(v.cell, v.sub, v.views + (view,))
                if d == 0 and a.ndim == 1 and len(a.axes[0]) == 1:
                    # materialise the family (views of symbolic position)
                    L = a.axes[0][0]
                    e = ArrC(((q,),), {(0,): T.subst(a.blocks[(0,)], {mk("ax", 0, L): add(lo, A.loc(0, q))})}, a.dtype)
                    ip.idxs.append(i)
                    try:
                        w = ip.new_arr(e)
                    finally:
                        ip.idxs.pop()
                    return ip.new_list([MapSeg(k, i, [w])])
                raise Undecided("split into a symbolic number of parts")
            kc = int(k.const)
            if kc <= 0:
                ip.py_raise("ValueError", "number sections must be larger than 0.")
            if q is None or (q.const is not None and q.const.denominator != 1):
                if n.const is not None:
                    if strict:
                        ip.py_raise("ValueError", "array split does not result in an equal division")
                    N = int(n.const)
                    each, extra = divmod(N, kc)
                    sizes = [each + 1] * extra + [each] * (kc - extra)
                    pts, o = [], 0
                    for z in sizes[:-1]:
                        o += z
                        pts.append(T.num(o))
                    return split_views(ip, ary, pts, n, d)
                raise Undecided("split of a symbolic length")
            return split_views(ip, ary, [T.scale(q, T.Fr(j)) for j in range(1, kc)], n, d)
        pts = []
        for x in ip.concrete(s, "split points"):
            p = ip.num(x)
            pts.append(A.norm_index(p, n))
        return split_views(ip, ary, pts, n, d)
    return f


def np_repeat(ip, a, repeats, axis=NONE):
    c = ip.as_arr(a)
    r = ip.res(repeats)
    if ip.res(axis) is NONE:
        c = A.ravel(c)
        d = 0
    else:
        d = axis_of(ip, axis, c.ndim)
    if isinstance(r, Num) and all(L is ONE for L in c.axes[d]):
        parts = []
        for s in range(len(c.axes[d])):
            e = A.newaxis(A.elem_at(c, d, T.num(s)), d)
            axes = list(e.axes)
            axes[d] = A.norm_len(r.p)
            parts.append(ArrC(tuple(axes), {k: e.blocks[k[:d] + (0,) + k[d + 1:]] for k in A.keys(axes)}, c.dtype))
        return ip.new_arr(A.concat(parts, d))
    rp = None if isinstance(r, Num) else ip.as_arr(r)
    if rp is not None and rp.ndim == 1 and all(L is ONE for L in rp.axes[0]) and all(L is ONE for L in c.axes[d]) and \
            len(rp.axes[0]) == len(c.axes[d]):
        parts = []
        for s in range(len(c.axes[d])):
            e = A.newaxis(A.elem_at(c, d, T.num(s)), d)
            axes = list(e.axes)
            axes[d] = A.norm_len(rp.blocks[(s,)])
            parts.append(ArrC(tuple(axes), {k: e.blocks[k[:d] + (0,) + k[d + 1:]] for k in A.keys(axes)}, c.dtype))
        return ip.new_arr(A.concat(parts, d))
    raise Undecided("repeat")


def np_tile(ip, a, reps):
    c = ip.as_arr(a)
    r = ip.res(reps)
    if isinstance(r, Num) and r.p.const is not None and c.ndim == 1:
        return ip.new_arr(A.concat([c] * int(r.p.const), 0))
    if isinstance(r, Tup) and len(r.items) == 2 and c.ndim == 1 and ip.num(r.items[1]) is ONE:
        n = ip.num(r.items[0])
        axes = (A.norm_len(n),) + (c.axes[0],)
        blocks = {k: T.subst(c.blocks[(k[1],)], {mk("ax", 0, L): A.ax(1, L) for L in [c.axes[0][k[1]]] if L is not ONE}) for k in A.keys(axes)}
        return ip.new_arr(ArrC(axes, blocks, c.dtype))
    raise Undecided("tile")


def np_broadcast_to(ip, a, shape):
    c = ip.as_arr(a)
    z = A.full(shape_of(ip, shape), ZERO)
    r = A.ew(lambda x, y: x, c, z, dtype=c.dtype)
    if r.shape != z.shape:
        raise ShapeError("operands could not be broadcast together with remapped shapes")
    return ip.new_arr(r)


def np_flip(ip, a, axis=None):
    c = ip.as_arr(a)
    for d in (range(c.ndim) if axis is None else [axis_of(ip, axis, c.ndim)]):
        c = A.reverse(c, d)
    return ip.new_arr(c)


def np_delete(ip, arr, obj, axis=NONE):
    c = ip.as_arr(arr)
    o = ip.res(obj)
    if isinstance(o, Num) and o.p.const is not None:
        ax = 0 if ip.res(axis) is NONE and c.ndim == 1 else axis_of(ip, axis, c.ndim)
        n = axis_len(c, ax)
        p = A.norm_index(o.p, n)
        return ip.new_arr(A.concat([A.take_range(c, ax, ZERO, p), A.take_range(c, ax, add(p, ONE), n)], ax))
    raise Undecided("delete")


def np_take(ip, a, indices, axis=NONE):
    c = ip.as_arr(a)
    d = 0
    if ip.res(axis) is NONE:
        c = A.ravel(c)
    else:
        d = axis_of(ip, axis, c.ndim)
    i = ip.res(indices)
    if isinstance(i, Num):
        return ip.result(A.elem_at(c, d, A.norm_index(i.p, axis_len(c, d))))
    return ip.new_arr(A.gather_arr(c, d, ip.as_arr(i)))


# ---------------------------------------------------------------- tests and selections

def positions(ip, c):
    """numpy.nonzero: index arrays, or selections of the grid if the condition depends on the input."""
    pos = A.true_positions(c)
    if pos is not None:
        return Tup([ip.new_arr(p) for p in pos])
    return Tup([MaskedV(ip.new_arr(A.grid(c, d)), c) for d in range(c.ndim)])


def np_nonzero(ip, a):
    return positions(ip, truth_arr(ip, a))


def np_flatnonzero(ip, a):
    return positions(ip, A.ravel(truth_arr(ip, a))).items[0]


def truth_arr(ip, a):
    c = ip.as_arr(a)
    if c.ndim == 0:
        raise Undecided("positions of a scalar condition")
    return c if c.dtype == "bool" else A.fmap(lambda p: T.c_not(T.eq0(p)), c, "bool")


def np_where(ip, cond, x=None, y=None):
    c = cast(ip.as_arr(cond), "bool")
    if x is None:
        if c.ndim == 0:
            raise Undecided("positions of a scalar condition")
        return positions(ip, c)
    a, b = ip.as_arr(x), ip.as_arr(y)
    r = A.ew(T.ite, c, a, b, dtype=A.promote(a.dtype, b.dtype))
    return ip.result(r) if r.ndim else Num(r.blocks[()], "npfloat" if r.dtype == "float" else "np" + r.dtype)


def close_cond(ip, a, b, rtol, atol):
    rt = T.num(T.Fr(1, 100000)) if rtol is None else ip.num(rtol)
    at = T.num(T.Fr(1, 100000000)) if atol is None else ip.num(atol)
    return A.ew(lambda x, y: ONE if x is y else T.le(T.fn("abs", psub(x, y)), add(at, mul(rt, T.fn("abs", y)))),
                ip.as_arr(a), ip.as_arr(b), dtype="bool")


def np_allclose(ip, a, b, rtol=None, atol=None, equal_nan=None):
    c = close_cond(ip, a, b, rtol, atol)
    return boolv(T.c_not(any_all(A.fmap(T.c_not, c))))


def np_isclose(ip, a, b, rtol=None, atol=None, equal_nan=None):
    return ip.result(close_cond(ip, a, b, rtol, atol))


def np_array_equal(ip, a, b, equal_nan=None):
    x, y = ip.as_arr(a), ip.as_arr(b)
    if x.ndim != y.ndim:
        return FALSE
    g = ONE
    for p, q in zip(x.shape, y.shape):
        if p is not q:
            e = T.eq(p, q)
            if e is ZERO:
                return FALSE
            raise Undecided("comparison of arrays of open length")
    return boolv(T.c_not(any_all(A.ew(lambda u, v: T.c_not(T.eq(u, v)), x, y, dtype="bool"))))


def np_clip(ip, a, a_min=NONE, a_max=NONE, out=None, min=NONE, max=NONE):
    c = ip.as_arr(a)
    if ip.res(a_min) is NONE:
        a_min = min
    if ip.res(a_max) is NONE:
        a_max = max
    if ip.res(a_min) is not NONE:
        c = A.ew(lambda x, y: T.fn("maximum", x, y), c, ip.as_arr(a_min), dtype=c.dtype)
    if ip.res(a_max) is not NONE:
        c = A.ew(lambda x, y: T.fn("minimum", x, y), c, ip.as_arr(a_max), dtype=c.dtype)
    if out is not None:
        return out_param(ip, out, c)
    return ip.result(c)


def np_nan_to_num(ip, x, copy=TRUE, nan=None, posinf=None, neginf=None):
    x = ip.res(x)
    c = ip.as_arr(x)
    nv = ZERO if nan is None else ip.num(nan)

    def one(q):
        d = defined(q)
        return q if d is ONE else T.ite(d, q, nv)
    r = A.fmap(one, c)
    if ip.res(copy) is FALSE and isinstance(x, ArrV):
        ip.write_arr(x, r)
        return x
    return ip.result(r)


def np_round(ip, a, decimals=intv(0), out=None):
    c = ip.as_arr(a)
    if ip.num(decimals) is not ZERO:
        d = ip.num(decimals)
        return ip.result(A.fmap(lambda p: T.fn("round", p, d), c))
    return ip.result(A.fmap(lambda p: T.fn("rint", p), c))


def np_shape(ip, a):
    if isinstance(ip.res(a), MaskedV):
        return attr(ip, ip.res(a), "shape")
    return Tup([Num(s, "int") for s in ip.as_arr(a).shape])


def np_size(ip, a, axis=NONE):
    if isinstance(ip.res(a), MaskedV):
        return attr(ip, ip.res(a), "size")
    c = ip.as_arr(a)
    if ip.res(axis) is not NONE:
        return Num(c.shape[axis_of(ip, axis, c.ndim)], "int")
    n = ONE
    for s in c.shape:
        n = mul(n, s)
    return Num(n, "int")


def np_ndim(ip, a):
    if isinstance(ip.res(a), MaskedV):
        return intv(1)
    return intv(ip.as_arr(a).ndim)


def np_copyto(ip, dst, src, casting=None, where=None):
    d = ip.res(dst)
    c = ip.arr(d)
    s = ip.as_arr(src)
    r = A.ew(lambda x, y: y, c, s, dtype=c.dtype)
    if where is not None:
        r = A.ew(lambda w, x, y: T.ite(w, y, x), ip.as_arr(where), c, s, dtype=c.dtype)
    ip.write_arr(d, r)
    return NONE


def np_fill_diagonal(ip, a, val):
    a = ip.res(a)
    c = ip.arr(a)
    v = cast(iter_arr(ip, val), c.dtype)
    if c.ndim != 2 or v.ndim > 1:
        raise Undecided("fill_diagonal")
    dg = A.diag(A.full([c.shape[0]], ONE))
    if v.ndim and A.item(v) is None:
        # the values, one per row (numpy repeats and cuts them to length)
        if v.shape[0] is not c.shape[0] or c.shape[0] is not c.shape[1]:
            raise Undecided("fill_diagonal")
        v = A.newaxis(v, 1)
    ip.write_arr(a, A.ew(lambda x, e, w: T.ite(e, w, x), c, dg, v, dtype=c.dtype))
    return NONE


def np_isscalar(ip, x):
    x = ip.res(x)
    return TRUE if isinstance(x, (Num, Str)) else FALSE


def np_count_nonzero(ip, a):
    return Num(A.sum_all(A.fmap(tru, ip.as_arr(a))), "int")


def np_shares(ip, a, b, max_work=None):
    a, b = ip.res(a), ip.res(b)
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.cell == b.cell:
        if not a.views and not b.views or a.views == b.views:
            return TRUE
        raise Undecided("overlap of views")
    return FALSE


def np_issubdtype(ip, a, b):
    d = dt(ip, a, None)
    b = ip.res(b)
    n = b.name.rsplit(".", 1)[-1] if isinstance(b, (Cls, Ext)) else ""
    n = n.replace("np", "")
    if n in ("integer", "int", "int64", "signedinteger"):
        return TRUE if d == "int" else FALSE
    if n in ("floating", "float", "float64", "inexact"):
        return TRUE if d == "float" else FALSE
    if n in ("number",):
        return TRUE if d in ("int", "float") else FALSE
    if n.startswith("bool"):
        return TRUE if d == "bool" else FALSE
    raise Undecided("issubdtype")


def uf_reduce(name, red):
    def f(ip, a, axis=intv(0), dtype=None, out=None, keepdims=None, initial=None):
        c = iter_arr(ip, a)
        if c.ndim == 0:
            ip.py_raise("TypeError", "cannot reduce on a scalar")
        return red(ip, a, axis, keepdims=keepdims)
    return f


def uf_outer(name, f, rdt):
    def g(ip, a, b):
        x, y = ip.as_arr(a), ip.as_arr(b)
        for _ in range(y.ndim):
            x = A.newaxis(x, x.ndim)
        return ip.new_arr(A.ew(f, x, y, dtype=rdt(x.dtype, y.dtype)))
    return g


# ---------------------------------------------------------------- statistics

def bin_edges(ip, bins, rng, x):
    """Edges array content for one dimension."""
    b = ip.res(bins)
    if isinstance(b, Num):
        if base_ty(b.ty) == "float":
            ip.py_raise("TypeError", "`bins` must be an integer or a sequence")
        if rng is None or ip.res(rng) is NONE:
            raise Undecided("bin range taken from the data")
        lo, hi = [ip.num(v) for v in ip.concrete(rng)]
        n = b.p
        step = mul(psub(hi, lo), T.power(n, -1))
        return A.build([add(n, ONE)], lambda i: add(lo, mul(i, step)))
    if isinstance(b, Str):
        raise Undecided("automatic bins")
    return ip.as_arr(b)


def in_bin(x, ekey, i, edges=None):
    if edges is not None and i.const is not None:
        # is the bin of the entry the same on every input?
        k, n = int(i.const), len(edges) - 1
        below = T.lt0(psub(x, edges[k]))
        above = T.lt0(psub(edges[k + 1], x)) if k == n - 1 else T.le(edges[k + 1], x)
        if below is ONE or above is ONE:
            return ZERO
        if below is ZERO and above is ZERO:
            return ONE
    return T.fn("InBin", x, ekey, i)


def inside(q, x, i, e, known):
    """q where x lies in bin i: comparisons of x with edges that are then decided."""
    facts = []          # (comparison, its value)
    if known is not None and i.const is not None:
        k, n = int(i.const), len(known) - 1
        for j, v in enumerate(known):
            if j <= k:
                facts.append((psub(x, v), ZERO))
                if T.lt0(psub(v, known[k])) is ONE:
                    facts.append((psub(v, x), ONE))
            else:
                facts.append((psub(v, x), ZERO))
                if k < n - 1:
                    facts.append((psub(x, v), ONE))
    else:
        n = psub(A.total(e.axes[0]), ONE)
        facts = [(psub(x, A.item(A.elem_at(e, 0, ZERO))), ZERO), (psub(A.item(A.elem_at(e, 0, n)), x), ZERO)]
    mp = {}
    for c, val in facts:
        c = T.lt0(c)
        a = [m[0][0] for m, _ in c.t if m]
        if c.const is None and len(c.t) in (1, 2) and len(a) == 1 and a[0].kind == "lt":
            mp[a[0]] = val if c is atom(a[0]) else psub(ONE, val)
    if not mp:
        return q
    out = ZERO
    for m, c in q.t:
        r = T.num(c)
        for a, ex in m:
            r = mul(r, mp[a] if a in mp else T.power(atom(a), ex))
        out = add(out, r)
    return out


def hist_nd(ip, xs, ws, edges):
    """Sum over entries of w * prod InBin."""
    nb = [psub(A.total(e.axes[0]), ONE) for e in edges]
    keys_ = [e.key() for e in edges]
    known = []
    for e in edges:
        n = e.shape[0].const
        known.append([A.item(A.elem_at(e, 0, T.num(i))) for i in range(int(n))] if n is not None and n <= 12 else None)
    arrs = xs + ([ws] if ws is not None else [])
    n0 = xs[0].shape
    for a in arrs:
        if a.ndim != 1:
            raise ShapeError("data must be one-dimensional")
    al = [A.align2(arrs[0], 0, a, 0)[1] for a in arrs[1:]]
    for _ in range(2):
        for k in range(1, len(arrs)):
            arrs[0], arrs[k] = A.align2(arrs[0], 0, arrs[k], 0)

    def val(*ix):
        tot = ZERO
        for s, L in enumerate(arrs[0].axes[0]):
            w = arrs[len(xs)].blocks[(s,)] if ws is not None else ONE
            q = w
            f = None
            mp = {}
            if L is not ONE:
                f = T.fresh_idx(L)
                mp = {mk("ax", 0, L): atom(f)}
                q = T.subst(q, mp)
            for d in range(len(xs)):
                x = T.subst(arrs[d].blocks[(s,)], mp) if mp else arrs[d].blocks[(s,)]
                if T.has_ind(q):
                    q = inside(q, x, ix[d], edges[d], known[d])
                q = mul(q, in_bin(x, keys_[d], ix[d], known[d]))
            tot = add(tot, q if f is None else T.make_sum(L, f, q))
        return tot
    return A.build(nb, val)


class Entries(list):
    """Data of a histogram, one array per dimension; mask: which of the entries are meant."""
    mask = None


def entries(ip, vs):
    vs = [own_array(ip, v) for v in vs]
    r = Entries()
    for v in vs:
        if isinstance(v, MaskedV):
            m = A.ravel(v.mask)
            if r.mask is not None and r.mask.key() is not m.key():
                raise Undecided("samples selected differently")
            r.mask = m
    for v in vs:
        if isinstance(v, MaskedV):
            v = v.arr
        elif r.mask is not None:
            raise Undecided("samples selected differently")
        r.append(prep_entries(ip, v))
    return r


def prep_entries(ip, v):
    v = own_array(ip, v)
    if isinstance(v, MaskedV):
        raise Undecided("histogram of a selection")
    a = ip.as_arr(v)
    if a.dtype == "obj":
        raise Undecided("object array")
    if a.ndim > 1:
        a = A.ravel(a)
    if a.ndim == 0:
        a = A.newaxis(a, 0)
    return a


def st_res(ip, name, fields, vals):
    c = Cls(name, (ip.types["tuple"],))
    c.fields = (fields, {})
    c.ctor = "nt"
    return NT(c, vals)


def stat_name(ip, s):
    s = ip.res(s)
    if isinstance(s, Str) and s.lit in ("sum", "count", "mean"):
        return s.lit
    raise Undecided("statistic")


def weights_for(ip, stat, values, xs):
    if stat == "count":
        return xs.mask
    w = own_array(ip, values)
    if isinstance(w, MaskedV):
        if xs.mask is None or A.ravel(w.mask).key() is not xs.mask.key():
            raise Undecided("weights selected differently from the data")
        return A.ew(mul, A.ravel(ip.as_arr(w.arr)), xs.mask)
    if xs.mask is not None:
        a = ip.as_arr(w)
        n = A.sum_all(xs.mask)
        if a.ndim == 1 and (a.shape[0] is n or T.sign_eq0(psub(a.shape[0], n)) is True) and A.constant(a) is not None:
            k = A.constant(a)
            return A.fmap(lambda p: mul(p, k), xs.mask)
        raise Undecided("weights of a selection of the data")
    a = prep_entries(ip, w)
    if a.shape[0] is not xs[0].shape[0]:
        r = T.sign_eq0(psub(a.shape[0], xs[0].shape[0]))
        if r is False or a.shape[0].const is not None and xs[0].shape[0].const is not None:
            ip.py_raise("ValueError", "The number of elements in each of 'values' and 'sample' must be the same")
        raise Undecided("lengths of data and weights")
    return a


def binned_sets(ip, st, values, xs, e):
    """Statistic of every set of values: several sets give one axis more."""
    sets = value_sets(ip, values)
    out = []
    for v in [values] if sets is None else sets:
        h = hist_nd(ip, xs, weights_for(ip, st, v, xs), e)
        if st == "mean":
            h = A.ew(pdiv, h, hist_nd(ip, xs, xs.mask, e))
        out.append(h)
    return out[0] if sets is None else A.stack(out)


def value_sets(ip, values):
    v = ip.res(values)
    if isinstance(v, ArrV):
        c = ip.as_arr(v)
        if c.ndim < 2:
            return None
        n = c.shape[0].const
        if c.ndim > 2 or n is None:
            raise Undecided("sets of values")
        return [ip.new_arr(A.elem_at(c, 0, T.num(i))) for i in range(int(n))]
    c = ip.content(v) if isinstance(v, Ref) else v
    if isinstance(c, (Tup, ListC)):
        it = ip.items(v)
        if it and not any(isinstance(z, MapSeg) for z in it):
            f = ip.res(it[0])
            if isinstance(f, Ref):
                f = ip.content(f)
            if isinstance(f, (Tup, ListC)) or isinstance(f, ArrV) and ip.as_arr(f).ndim == 1:
                return it
    return None


def binned_statistic(ip, x, values, statistic=Str("mean"), bins=intv(10), range=None):
    st = stat_name(ip, statistic)
    xs = entries(ip, [x])
    e = bin_edges(ip, bins, range, xs[0])
    h = binned_sets(ip, st, values, xs, [e])
    return st_res(ip, "BinnedStatisticResult", ("statistic", "bin_edges", "binnumber"),
                  [ip.new_arr(h), ip.new_arr(e), Top("bin numbers")])


def binned_statistic_2d(ip, x, y, values, statistic=Str("mean"), bins=intv(10), range=None, expand_binnumbers=None):
    st = stat_name(ip, statistic)
    xs = entries(ip, [x, y])
    check_len(ip, xs)
    b = ip.res(bins)
    rr = [None, None]
    if range is not None and ip.res(range) is not NONE:
        rr = ip.concrete(range)
    if isinstance(b, Num):
        bs = [b, b]
    else:
        bs = ip.items(b)
        if any(isinstance(z, MapSeg) for z in bs) or len(bs) != 2:
            bs = [b, b]
    e = [bin_edges(ip, bs[d], rr[d], xs[d]) for d in (0, 1)]
    h = binned_sets(ip, st, values, xs, e)
    return st_res(ip, "BinnedStatistic2dResult", ("statistic", "x_edge", "y_edge", "binnumber"),
                  [ip.new_arr(h), ip.new_arr(e[0]), ip.new_arr(e[1]), Top("bin numbers")])


def check_len(ip, xs):
    for a in xs[1:]:
        if a.shape[0] is not xs[0].shape[0]:
            if a.shape[0].const is not None and xs[0].shape[0].const is not None or T.sign_eq0(psub(a.shape[0], xs[0].shape[0])) is False:
                ip.py_raise("ValueError", "lengths of the samples differ")
            raise Undecided("lengths of the samples")


def binned_statistic_dd(ip, sample, values, statistic=Str("mean"), bins=intv(10), range=None, **k):
    it = ip.concrete(sample)
    if len(it) == 2:
        r = binned_statistic_2d(ip, it[0], it[1], values, statistic, bins, range)
        return st_res(ip, "BinnedStatisticddResult", ("statistic", "bin_edges", "binnumber"),
                      [r.items[0], ip.new_list([r.items[1], r.items[2]]), r.items[3]])
    raise Undecided("binned_statistic_dd")


def np_histogram(ip, a, bins=intv(10), range=None, weights=NONE, density=None, normed=None):
    if density is not None and ip.res(density) not in (NONE, FALSE):
        raise Undecided("density")
    xs = entries(ip, [a])
    e = bin_edges(ip, bins, range, xs[0])
    ws = xs.mask if ip.res(weights) is NONE else weights_for(ip, "sum", weights, xs)
    return Tup([ip.new_arr(hist_nd(ip, xs, ws, [e])), ip.new_arr(e)])


def np_histogram2d(ip, x, y, bins=intv(10), range=None, weights=NONE, density=None, normed=None):
    if density is not None and ip.res(density) not in (NONE, FALSE):
        raise Undecided("density")
    xs = entries(ip, [x, y])
    check_len(ip, xs)
    b = ip.res(bins)
    rr = [None, None] if range is None or ip.res(range) is NONE else ip.concrete(range)
    if isinstance(b, Num):
        bs = [b, b]
    else:
        bs = ip.items(b)
        if len(bs) != 2 or any(isinstance(z, MapSeg) for z in bs):
            bs = [b, b]
    e = [bin_edges(ip, bs[d], rr[d], xs[d]) for d in (0, 1)]
    ws = xs.mask if ip.res(weights) is NONE else weights_for(ip, "sum", weights, xs)
    return Tup([ip.new_arr(hist_nd(ip, xs, ws, e)), ip.new_arr(e[0]), ip.new_arr(e[1])])


def np_histogram_edges(ip, a, bins=intv(10), range=None, weights=None):
    return ip.new_arr(bin_edges(ip, bins, range, None))


def np_histogramdd(ip, sample, bins=intv(10), range=None, weights=NONE, density=None):
    it = ip.concrete(sample)
    if len(it) == 2:
        r = np_histogram2d(ip, it[0], it[1], bins, range, weights, density)
        return Tup([r.items[0], ip.new_list([r.items[1], r.items[2]])])
    raise Undecided("histogramdd")


def poisson_draw(ip, mu, size=None, random_state=None, loc=None):
    if loc is not None and ip.num(loc) is not ZERO:
        raise Undecided("shifted poisson")
    a = ip.as_arr(mu)
    if size is not None and ip.res(size) is not NONE:
        z = A.full(shape_of(ip, size), ZERO)
        a = A.ew(lambda x, y: x, a, z)
    fixed = random_state is not None and ip.res(random_state) is not NONE
    ip.draws += 1
    ip.draw_log.append((ip.draws, ip.path(), ip.site(), fixed))
    size_ = ONE
    for segs in a.axes:
        size_ = mul(size_, A.total(segs))
    if ip.idxs or ip.drawn is None:
        ip.drawn = None
    else:
        ip.drawn = add(ip.drawn, mul(ip.gate, size_))
    offs = [A.offsets(x) for x in a.axes]
    single = not ip.idxs and all(s.const == 1 for x in a.axes for s in x)
    blocks = {}
    for k, q in a.blocks.items():
        # the draw is a leaf, so that it can be abstracted (sa.undrawn)
        if single:
            n = "§draw%d" % ip.draws + "".join("_%d" % j for j in k)
            ix = []
        else:
            n = "§draw%d" % ip.draws
            ix = [add(offs[d][s], A.loc(d, a.axes[d][s])) for d, s in enumerate(k)] + [atom(i) for i in ip.idxs]
        T.declare(n, 0, None)
        blocks[k] = T.fn("pois", q, T.num(-1) if fixed else T.sym(n), *ix)
    return ip.result(ArrC(a.axes, blocks, "int"))


def other_draw(name, result="float"):
    """Draws of other distributions: unknown values, new ones for every call."""
    def draw(ip, *args, size=None, random_state=None):
        arrs = [ip.as_arr(a) for a in args]
        if size is not None and ip.res(size) is not NONE:
            arrs.append(A.full(shape_of(ip, size), ZERO))
        elif not arrs:
            arrs.append(A.full([], ZERO))
        ip.draws += 1
        ip.draw_log.append((ip.draws, ip.path(), ip.site(), False))
        n = "§%s%d" % (name, ip.draws)
        T.declare(n, None, None)
        ip.drawn = None
        c = arrs[0]
        for b in arrs[1:]:
            c = A.ew(lambda x, y: add(mul(x, T.num(1)), mul(y, ZERO)), c, b)
        idx = A.build(c.shape, lambda *i: T.fn("draw of " + name, T.sym(n), *i, *[atom(k) for k in ip.idxs]), result)
        out = idx
        for b in arrs:
            if b.ndim or b.blocks:
                out = A.ew(lambda x, y: T.fn("drawn from " + name, x, y), out, b, dtype=result)
        return ip.result(out)
    return draw


def np_poisson(ip, lam=None, size=None):
    return poisson_draw(ip, lam if lam is not None else intv(1), size)


def sf(x, df):
    """Survival function of the chi-squared distribution."""
    return ZERO if x is INF else (ONE if x is ZERO else T.fn("chi2sf", x, df))


def plain(loc, scale):
    return (loc is None or loc is ZERO) and (scale is None or scale is ONE)


def chi2_sf(ip, x, df, loc=None, scale=None):
    if not plain(loc and ip.num(loc), scale and ip.num(scale)):
        raise Undecided("chi-squared distribution with a location or scale")
    return ip.result(A.ew(sf, ip.as_arr(x), ip.as_arr(df), dtype="float"))


def chi2_cdf(ip, x, df, loc=None, scale=None):
    if not plain(loc and ip.num(loc), scale and ip.num(scale)):
        raise Undecided("chi-squared distribution with a location or scale")
    return ip.result(A.ew(lambda p, q: psub(ONE, sf(p, q)), ip.as_arr(x), ip.as_arr(df), dtype="float"))


def gammaincc(ip, a, x):
    """Regularised upper incomplete gamma function."""
    return ip.result(A.ew(lambda p, q: sf(mul(T.num(2), q), mul(T.num(2), p)), ip.as_arr(a), ip.as_arr(x), dtype="float"))


def gammainc(ip, a, x):
    return ip.result(A.ew(lambda p, q: psub(ONE, sf(mul(T.num(2), q), mul(T.num(2), p))), ip.as_arr(a), ip.as_arr(x),
                          dtype="float"))


def chi2_pdf(ip, x, df, loc=None, scale=None):
    a, b = ip.as_arr(x), ip.as_arr(df)
    return ip.result(A.ew(lambda p, q: T.fn("chi2pdf", p, q), a, b, dtype="float"))


def quad(ip, func, a, b, args=Tup(()), **kw):
    lo, hi = ip.num(a), ip.num(b)
    ex = ip.res(args)
    ex = list(ex.items) if isinstance(ex, Tup) else [ex]
    T.declare("§t", 0, None)
    t = T.sym("§t")
    r = ip.num(ip.call(func, [Num(t, "float")] + ex, {}))
    # integral of the chi-squared density
    if len(r.t) == 1 and len(r.t[0][0]) == 1 and r.t[0][1] == 1:
        (x, e), = r.t[0][0]
        if e == 1 and x.kind == "fn" and x.args[0] == "chi2pdf" and x.args[1] is t and not any(
                y is mk("sym", "§t") for y in x.args[2].leaves):
            return Tup([Num(psub(sf(lo, x.args[2]), sf(hi, x.args[2])), "float"), Top("integration error")])
    key = A.scalar(r).key()
    return Tup([Num(T.fn("integral", key, lo, hi), "float"), Top("integration error")])


def xlogy(ip, x, y):
    a, b = ip.as_arr(x), ip.as_arr(y)
    return ip.result(A.ew(lambda p, q: mul(T.c_not(T.eq0(p)), mul(p, T.fn("log", q))), a, b, dtype="float"))


def xlog1py(ip, x, y):
    a, b = ip.as_arr(x), ip.as_arr(y)
    return ip.result(A.ew(lambda p, q: mul(T.c_not(T.eq0(p)), mul(p, T.fn("log", add(ONE, q)))), a, b, dtype="float"))


def opaque_ew(name):
    def f(ip, *xs):
        arrs = [ip.as_arr(x) for x in xs]
        return ip.result(A.ew(lambda *p: T.fn(name, *p), *arrs, dtype="float"))
    return f


def explicit_derivative(xa, oc):
    """Jacobian by symbolic differentiation, for concrete sizes."""
    n, m = xa.shape[0].const, oc.shape[0].const
    if n is None or m is None:
        return None
    xs = [mk("elem", "§x", T.num(i)) for i in range(int(n))]
    def at(a, i):
        return A.item(A.elem_at(a, 0, i))
    mp = {x: at(xa, T.num(i)) for i, x in enumerate(xs)}
    try:
        def f(i, j):
            q = T.diff(at(oc, i), xs[int(j.const)])
            return T.subst(q, mp)
        return A.build([oc.shape[0], xa.shape[0]], f)
    except Undecided:
        return None


def derivative(kind):
    """numdifftools.Jacobian / Hessian / Gradient of a function."""
    def make(ip, fun, *a, **k):
        # the estimate is extrapolated from several steps; a single large step gives a secant
        h = ip.res(a[0]) if a else ip.res(k["step"]) if "step" in k else NONE
        once = "num_steps" in k and ip.num(k["num_steps"]) is ONE
        coarse = isinstance(h, Num) and once and not (h.p.const is not None and abs(h.p.const) <= T.Fr(1, 1000))

        def run(ip, x, *args, **kw):
            xa = ip.as_arr(x)
            if xa.ndim != 1:
                raise Undecided("derivative at a scalar")
            T.declare("§x")
            probe = A.build([xa.shape[0]], lambda i: atom(mk("elem", "§x", i)))
            probe = A.split_axis(probe, 0, A.bounds(xa.axes[0])[:-1])
            st, g = dict(ip.state), ip.gate
            out = ip.call(fun, [ip.new_arr(probe)] + list(args), kw)
            oc = ip.as_arr(out)
            okey, xkey = oc.key(), xa.key()
            n = xa.shape[0]
            if coarse and kind != "jac":
                raise Undecided("derivative of a single large step")
            if kind == "jac":
                if oc.ndim == 0:
                    oc = A.newaxis(oc, 0)
                if oc.ndim != 1:
                    raise Undecided("jacobian of a matrix")
                if coarse:      # exact for linear functions only
                    return ip.new_arr(A.build_axes((oc.axes[0], xa.axes[0]), lambda i, j: T.fn("secant", okey, xkey, h.p, i, j)))
                explicit = explicit_derivative(xa, oc)
                if explicit is not None:
                    return ip.new_arr(explicit)
                return ip.new_arr(A.build_axes((oc.axes[0], xa.axes[0]), lambda i, j: T.fn("jac", okey, xkey, i, j)))
            if oc.ndim and A.item(oc) is None:
                ip.py_raise("ValueError", "function must be scalar")
            if kind == "grad":
                return ip.new_arr(A.build_axes((xa.axes[0],), lambda i: T.fn("grad", okey, xkey, i)))
            return ip.new_arr(A.build_axes((xa.axes[0],) * 2, lambda i, j: T.fn("hess", okey, xkey, i, j)))
        return Built("numdifftools." + kind, run)
    return make


# ---------------------------------------------------------------- attributes

def nd_astype(ip, o, dtype, copy=TRUE, **k):
    if isinstance(o, MaskedV):
        return MaskedV(nd_astype(ip, o.arr, dtype), o.mask)
    c = ip.as_arr(o)
    d = dt(ip, dtype, c.dtype)
    if isinstance(o, Num):
        return Num(cast(c, d).blocks[()], "np" + d)
    if d == c.dtype and ip.res(copy) is FALSE:
        return o
    return ip.new_arr(cast(c, d))


def nd_tolist(ip, o):
    if isinstance(o, Num):
        return Num(o.p, base_ty(o.ty))
    c = ip.arr(o)
    if c.ndim == 0:
        return Num(c.blocks[()], c.dtype)

    def rec(v):
        out = []
        for x in ip.items(v):
            if isinstance(x, MapSeg):
                if len(x.vals) == 1 and isinstance(x.vals[0], Num):
                    out.append(MapSeg(x.n, x.idx, [Num(x.vals[0].p, base_ty(x.vals[0].ty))]))
                else:
                    raise Undecided("nested list of symbolic length")
            elif isinstance(x, ArrV):
                out.append(rec(x))
            else:
                x = ip.res(x)
                out.append(Num(x.p, base_ty(x.ty)))
        return ip.new_list(out)
    return rec(o)


def nd_fill(ip, o, value):
    c = ip.arr(o)
    v = ip.num(value)
    ip.write_arr(o, A.fmap(lambda p: v, c))
    return NONE


def nd_item(ip, o, *a):
    if a:
        return nd_tolist(ip, ip.getitem(o, a[0] if len(a) == 1 else Tup(a)))
    p = A.item(ip.as_arr(o))
    if p is None:
        ip.py_raise("ValueError", "can only convert an array of size 1 to a Python scalar")
    return Num(p, ip.as_arr(o).dtype)


def nd_diagonal(ip, o):
    return ip.new_arr(A.diag(ip.as_arr(o)))


METHODS = {
    "sum": np_sum, "mean": np_mean, "std": np_std, "var": np_var, "min": np_ext("min"), "max": np_ext("max"), "any": np_any,
    "all": np_all, "prod": np_prod, "cumsum": np_cumsum, "dot": np_dot, "round": np_round, "clip": np_clip, "copy": np_copy,
    "reshape": np_reshape, "ravel": np_ravel, "flatten": nd_flatten, "transpose": np_transpose, "astype": nd_astype,
    "tolist": nd_tolist, "fill": nd_fill, "item": nd_item, "squeeze": np_squeeze, "diagonal": nd_diagonal, "repeat": np_repeat,
    "take": np_take, "trace": np_trace, "swapaxes": np_swapaxes, "__array__": np_copy,
    "conj": lambda ip, o: o, "conjugate": lambda ip, o: o,
}
MASKED_OK = {"sum", "mean", "any", "all", "copy", "ravel", "flatten", "astype"}
FLOATM = {"is_integer": lambda ip, o: boolv(ONE if T.is_int(o.p) else T.eq(T.fn("floor", o.p), o.p)),
          "conjugate": lambda ip, o: o, "bit_length": None, "hex": None, "as_integer_ratio": None}


def attr(ip, o, name):
    if isinstance(o, MaskedV):
        if name in MASKED_OK:
            f = METHODS[name]
            return Built(name, lambda ip, *a, **k: f(ip, o, *a, **k))
        if name == "size":
            return Num(A.sum_all(o.mask), "int")
        if name == "shape":
            return Tup([Num(A.sum_all(o.mask), "int")])
        if name == "ndim":
            return intv(1)
        if name in ("dtype", "real"):
            return o if name == "real" else attr(ip, o.arr, name)
        if name in ND_ATTRS:
            raise Undecided("attribute " + name + " of a selection")
        return None
    isn = isinstance(o, Num)
    if isinstance(o, ArrV) or isn and is_np(o.ty):
        c = ip.arr(o) if not isn else None
        if name == "shape":
            return Tup([Num(s, "int") for s in c.shape]) if c is not None else Tup(())
        if name == "ndim":
            return intv(c.ndim if c is not None else 0)
        if name == "size":
            return ip.native(np_size, ip, o)
        if name == "T":
            return ip.native(np_transpose, ip, o) if c is not None else o
        if name == "dtype":
            return Ext("numpy.dtype[" + (c.dtype if c is not None else base_ty(o.ty)) + "]")
        if name == "real":
            return o
        f = METHODS.get(name)
        if f is not None:
            return Built(name, lambda ip, *a, **k: f(ip, o, *a, **k))
        if name in ("__getitem__", "__len__", "__iter__", "__class__", "__setitem__"):
            if name == "__setitem__":
                return Built(name, lambda ip, k, v: ip.setitem(o, k, v) or NONE)
            return None
        if name == "flat":
            return np_ravel(ip, o)
        m = ip.more("numpy.nd_" + name)
        if m is not None:
            return BoundM(m, o)
        if name in ND_ATTRS or name.startswith("__"):
            raise Undecided("array attribute " + name)
        return None
    if isn:
        if name == "real":
            return o
        if name == "imag":
            return intv(0)
        if name in FLOATM and FLOATM[name] is not None:
            if name == "is_integer" and base_ty(o.ty) == "int":
                return None
            f = FLOATM[name]
            return Built(name, lambda ip: f(ip, o))
        if hasattr(1.0 if base_ty(o.ty) == "float" else 1, name):
            raise Undecided("number attribute " + name)
        return None
    if isinstance(o, Built):
        return Str(o.name) if name == "__name__" else None
    return None


def install(ip):
    ip.draws = 0
    ip.drawn = ZERO
    ip.draw_log = []
    E, V_ = ip.extcalls, ip.extvals
    t = ip.types
    for n, c in dict(ndarray="ndarray", floating="floating", float64="npfloat", float32="npsingle", single="npsingle", float16="npsingle", half="npsingle", float_="npfloat", double="npfloat",
                     integer="integer", int64="npint", int32="npint", int_="npint", intp="npint", number="number", generic="generic",
                     bool_="npbool", signedinteger="integer", inexact="floating").items():
        V_["numpy." + n] = t[c]
    V_["numpy.nan"] = V_["numpy.NaN"] = Num(NANP, "float")
    V_["numpy.inf"] = V_["numpy.infty"] = V_["numpy.Inf"] = Num(INF, "float")
    V_["numpy.pi"] = Num(atom(mk("sym", "pi")), "float")
    V_["numpy.newaxis"] = NONE
    t["LinAlgError"] = Cls("LinAlgError", (t["ValueError"],))
    t["LinAlgError"].ctor = "exc"
    V_["numpy.linalg.LinAlgError"] = t["LinAlgError"]
    V_["scipy.linalg.LinAlgError"] = t["LinAlgError"]
    for n, (f, k, r) in UF.items():
        E["numpy." + n] = ufunc(n, f, k, r)
        if k == 2:
            E["numpy." + n + ".outer"] = uf_outer(n, f, r)
    E["numpy.add.reduce"] = uf_reduce("add", np_sum)
    E["numpy.multiply.reduce"] = uf_reduce("multiply", np_prod)
    E["numpy.maximum.reduce"] = uf_reduce("maximum", np_ext("max"))
    E["numpy.minimum.reduce"] = uf_reduce("minimum", np_ext("min"))
    E["numpy.logical_and.reduce"] = uf_reduce("all", np_all)
    E["numpy.logical_or.reduce"] = uf_reduce("any", np_any)
    E["numpy.add.accumulate"] = lambda ip, a: np_cumsum(ip, a)
    for n, f in dict(
            zeros=np_fill(ZERO), ones=np_fill(ONE), empty=np_fill(atom(mk("sym", "§uninitialised"))), zeros_like=np_full_like(ZERO),
            ones_like=np_full_like(ONE), empty_like=np_full_like(atom(mk("sym", "§uninitialised"))), full=np_full,
            full_like=np_full_like2, array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
            asfarray=np_asarray, atleast_1d=np_atleast(1), atleast_2d=np_atleast(2), copy=np_copy, arange=np_arange, linspace=np_linspace,
            eye=np_eye, identity=np_eye, diag=np_diag, diagonal=np_diag, sum=np_sum, mean=np_mean, average=None,
            std=np_std, var=np_var, any=np_any, all=np_all, prod=np_prod, amax=np_ext("max"), amin=np_ext("min"), max=np_ext("max"),
            min=np_ext("min"), nansum=np_sum, cumsum=np_cumsum, diff=np_diff, ediff1d=np_diff, matmul=np_matmul, dot=np_dot, vdot=np_dot,
            inner=np_inner, outer=np_outer, tensordot=np_tensordot, einsum=np_einsum, trace=np_trace, reshape=np_reshape,
            ravel=np_ravel, transpose=np_transpose, swapaxes=np_swapaxes, squeeze=np_squeeze, expand_dims=np_expand_dims,
            concatenate=np_concatenate, stack=np_stack, vstack=np_vstack, row_stack=np_vstack, hstack=np_hstack,
            column_stack=np_column_stack, append=np_append, split=np_split(True), array_split=np_split(False), repeat=np_repeat,
            tile=np_tile, broadcast_to=np_broadcast_to, flip=np_flip, delete=np_delete, take=np_take, where=np_where, nonzero=np_nonzero, flatnonzero=np_flatnonzero,
            allclose=np_allclose, isclose=np_isclose, array_equal=np_array_equal, clip=np_clip, nan_to_num=np_nan_to_num,
            round=np_round, around=np_round, round_=np_round, shape=np_shape, size=np_size, ndim=np_ndim, copyto=np_copyto,
            fill_diagonal=np_fill_diagonal, isscalar=np_isscalar, count_nonzero=np_count_nonzero, shares_memory=np_shares,
            may_share_memory=np_shares, issubdtype=np_issubdtype, histogram=np_histogram, histogram2d=np_histogram2d,
            histogramdd=np_histogramdd, histogram_bin_edges=np_histogram_edges).items():
        if f is not None:
            E["numpy." + n] = f
    E["numpy.linalg.inv"] = E["scipy.linalg.inv"] = la_inv
    E["numpy.linalg.pinv"] = E["scipy.linalg.pinv"] = la_pinv
    E["numpy.linalg.solve"] = E["scipy.linalg.solve"] = la_solve
    E["numpy.linalg.norm"] = la_norm
    E["numpy.linalg.multi_dot"] = multi_dot
    V_["scipy.linalg.block_diag"] = Built("block_diag", block_diag_raw, raw=True)
    E["numpy.random.poisson"] = np_poisson
    E["numpy.random.Generator.poisson"] = np_poisson
    E["numpy.random.default_rng"] = lambda ip, *a, **k: seeded_gen(ip, a)
    E["numpy.random.seed"] = lambda ip, *a: NONE
    E["scipy.stats.poisson.rvs"] = poisson_draw
    for n in ("normal", "standard_normal", "uniform", "exponential", "gamma", "binomial", "lognormal", "multinomial", "negative_binomial"):
        E["numpy.random." + n] = E["numpy.random.Generator." + n] = other_draw(n)
    for n in ("norm", "uniform", "gamma", "binom", "expon"):
        E["scipy.stats.%s.rvs" % n] = other_draw(n)
    E["scipy.stats.binned_statistic"] = binned_statistic
    E["scipy.stats.binned_statistic_2d"] = binned_statistic_2d
    E["scipy.stats.binned_statistic_dd"] = binned_statistic_dd
    E["scipy.stats.chi2.sf"] = chi2_sf
    E["scipy.stats.chi2.cdf"] = chi2_cdf
    E["scipy.stats.chi2.pdf"] = chi2_pdf
    E["scipy.stats.distributions.chi2.sf"] = chi2_sf
    E["scipy.integrate.quad"] = quad
    E["scipy.special.xlogy"] = xlogy
    E["scipy.special.xlog1py"] = xlog1py
    for n in ("gammaln", "gamma", "erf", "erfc", "loggamma", "factorial"):
        E["scipy.special." + n] = opaque_ew(n)
    E["scipy.special.chdtrc"] = lambda ip, v, x: chi2_sf(ip, x, v)
    E["scipy.special.chdtr"] = lambda ip, v, x: chi2_cdf(ip, x, v)
    E["scipy.special.gammaincc"] = gammaincc
    E["scipy.special.gammainc"] = gammainc
    for p in ("numdifftools", "numdifftools.core"):
        E[p + ".Jacobian"] = derivative("jac")
        E[p + ".Hessian"] = derivative("hess")
        E[p + ".Gradient"] = derivative("grad")
    E["numpy.seterr"] = lambda ip, **k: ip.new_dict(())
    E["numpy.errstate"] = lambda ip, **k: Ext("numpy.errstate.ctx")
    E["numpy.set_printoptions"] = lambda ip, *a, **k: NONE


def seeded_gen(ip, a):
    if a and ip.res(a[0]) is not NONE:
        raise Undecided("seeded generator")
    return Ext("numpy.random.Generator")
