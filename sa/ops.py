"""Operators, indexing and conversions of abstract values."""
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, Undecided
import arrays as A
from arrays import ArrC, ShapeError, IndexErr
from values import *

_SYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "MatMult": "@",
        "BitAnd": "&", "BitOr": "|", "BitXor": "^", "LShift": "<<", "RShift": ">>"}
_DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
           "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}
_CMPD = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}
_SWAP = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


def pdiv(a, b):
    return mul(a, T.power(b, -1))


def ppow(a, b):
    c = b.const
    if c is not None:
        return T.power(a, int(c) if c.denominator == 1 else c)
    return T.fn("pow", a, b)


def pfloor(a, b):
    try:
        return T.idiv(a, b)
    except Undecided:
        return T.fn("div", a, b)


def pmod(a, b):
    try:
        return T.imod(a, b)
    except Undecided:
        return T.fn("mod", a, b)


def psub(a, b):
    return add(a, neg(b))


def p_or(a, b):
    return T.c_or(a, b)


def p_xor(a, b):
    return add(add(a, b), T.scale(mul(a, b), -2))


def is_np(t):
    return t.startswith("np")


def base_ty(t):
    return t[2:] if t.startswith("np") else t


PF = {"Add": add, "Sub": psub, "Mult": mul, "Div": pdiv, "FloorDiv": pfloor, "Mod": pmod, "Pow": ppow}
CMPF = {"Eq": T.eq, "NotEq": lambda a, b: T.c_not(T.eq(a, b)), "Lt": T.lt, "LtE": T.le,
        "Gt": lambda a, b: T.lt(b, a), "GtE": lambda a, b: T.le(b, a)}


class Ops:
    # ------------------------------------------------------------ types
    def type_of(self, v):
        v = self.res(v)
        t = self.types
        if isinstance(v, Num):
            return t[v.ty]
        if v is NONE:
            return t["NoneType"]
        if isinstance(v, Str):
            return t["str"]
        if isinstance(v, Tup):
            return t["tuple"]
        if isinstance(v, NT):
            return v.cls
        if isinstance(v, (ArrV, MaskedV)):
            return t["ndarray"]
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                return c.cls
            if isinstance(c, ListC):
                return t["list"]
            if isinstance(c, DictC):
                if c.default is not None:
                    return t["defaultdict"]
                return t["OrderedDict"] if self.info[v.cell].kind == "odict" else t["dict"]
            if isinstance(c, SetC):
                return t["set"]
            if isinstance(c, IterC):
                return t["iterator"]
        if isinstance(v, Cls):
            for b in v.mro:
                if b.name == "ABC":
                    pass
            return t["type"]
        if isinstance(v, (Fn, BoundM)):
            return t["function"]
        if isinstance(v, Built):
            return t["builtin"]
        if isinstance(v, RangeV):
            return t["range"]
        if isinstance(v, SliceV):
            return t["slice"]
        if isinstance(v, Mod):
            return t["module"]
        if isinstance(v, PropV):
            return t["property"]
        if isinstance(v, Ext):
            return Cls("external " + v.name)
        return t["object"]

    def isinstance(self, v, k):
        k = self.res(k)
        if isinstance(k, Tup):
            r = ZERO
            for x in k.items:
                r = T.c_or(r, self.isinstance(v, x))
            return r
        if isinstance(k, Ext):
            tv = self.type_of(v)
            n = k.name
            if n.startswith(("typing.", "collections.abc.", "numbers.")):
                b = tv.name
                last = n.rsplit(".", 1)[1]
                seq = {"Sequence": ("list", "tuple", "str", "range"), "Iterable": ("list", "tuple", "str", "range", "dict", "set", "ndarray", "OrderedDict", "iterator"),
                       "Mapping": ("dict", "OrderedDict", "defaultdict"), "Callable": ("function", "builtin"),
                       "Integral": ("int", "bool", "npint"), "Real": ("int", "bool", "npint", "float", "npfloat"),
                       "Number": ("int", "bool", "npint", "float", "npfloat", "complex")}.get(last)
                if seq is not None:
                    return ONE if b in seq or isinstance(v, NT) and "tuple" in seq else ZERO
            raise Undecided("isinstance of " + n)
        if not isinstance(k, Cls):
            self.py_raise("TypeError", "isinstance() arg 2 must be a type")
        if isinstance(v, NT) and k is self.types["tuple"]:
            return ONE
        if isinstance(v, Ext):
            return ZERO
        return ONE if self.type_of(v).is_sub(k) or k is self.types["object"] else ZERO

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, Ite) and all(isinstance(x, (Num, NoneT, Str)) for x in (v.a, v.b)):
            c = self.simp(v.c)
            if c is not ONE and c is not ZERO:
                return T.ite(c, self.truth(v.a), self.truth(v.b))
        v = self.res(v)
        if isinstance(v, Num):
            if v.ty in ("bool", "npbool"):
                return v.p
            return T.c_not(T.eq0(v.p))
        if v is NONE:
            return ZERO
        if isinstance(v, Str):
            if v.lit is not None:
                return ONE if v.lit else ZERO
            return ONE
        if isinstance(v, (Tup, NT)):
            return self.nonempty(v.items)
        if isinstance(v, MaskedV):
            raise Undecided("truth of a selection")
        if isinstance(v, ArrV):
            a = self.arr(v)
            n = ONE
            for s in a.shape:
                n = mul(n, s)
            if n is ONE:
                p = A.item(a)
                return p if a.dtype == "bool" else T.c_not(T.eq0(p))
            if n is ZERO:
                return ZERO
            self.py_raise("ValueError", "The truth value of an array with more than one element is ambiguous",
                          T.c_not(T.eq(n, ONE)))
            raise Undecided("truth of an array")
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ListC) or isinstance(c, SetC):
                return self.nonempty(c.items)
            if isinstance(c, DictC):
                return ONE if c.items else ZERO
            if isinstance(c, ObjC):
                for n in ("__bool__", "__len__"):
                    m, _ = c.cls.find(n)
                    if m is not None:
                        return self.truth(self.call(m, [v], {}))
            return ONE
        if isinstance(v, RangeV):
            return T.c_not(T.eq0(self.len_of(v).p))
        if isinstance(v, Ext):
            if v.name.startswith("logging"):
                return ONE
            raise Undecided("truth of " + v.name)
        return ONE

    def nonempty(self, items):
        if any(not isinstance(x, (MapSeg, PreSeg)) for x in items):
            return ONE
        if not items:
            return ZERO
        if any(isinstance(x, PreSeg) for x in items):
            raise Undecided("loop carried list")
        r = ZERO
        for x in items:
            r = T.c_or(r, T.c_not(T.eq0(x.n)))
        return r

    # ------------------------------------------------------------ sequences
    def seg_len(self, items):
        n = ZERO
        for x in items:
            if isinstance(x, PreSeg):
                raise Undecided("loop carried list")
            n = add(n, mul(x.n, T.num(len(x.vals))) if isinstance(x, MapSeg) else ONE)
        return n

    def len_of(self, v):
        v = self.res(v)
        if isinstance(v, Str):
            if v.lit is not None:
                return intv(len(v.lit))
            raise Undecided("length of a symbolic string")
        if isinstance(v, (Tup, NT)):
            return Num(self.seg_len(v.items), "int")
        if isinstance(v, ArrV):
            a = self.arr(v)
            if a.ndim == 0:
                self.py_raise("TypeError", "len() of unsized object")
            return Num(A.total(a.axes[0]), "int")
        if isinstance(v, MaskedV):
            return Num(A.sum_all(v.mask), "int")
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, (ListC, SetC)):
                return Num(self.seg_len(c.items), "int")
            if isinstance(c, DictC):
                return intv(len(c.items))
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__len__")
                if m is not None:
                    return self.call(m, [v], {})
        if isinstance(v, RangeV):
            lo, hi, st = (self.number(x) for x in (v.lo, v.hi, v.step))
            d = psub(hi, lo)
            if st is ONE:
                s = T.sign_lt0(d)
                if s is False:
                    return Num(d, "int")
                if s is True:
                    return intv(0)
                return Num(mul(T.c_not(T.lt0(d)), d), "int")
            if d.const is not None and st.const is not None:
                return intv(len(range(0, int(d.const), int(st.const))))
            raise Undecided("range with a step")
        self.py_raise("TypeError", f"object of type '{self.type_of(v).name}' has no len()")

    def num_or(self, v):
        v = self.res(v)
        if isinstance(v, Num):
            return v.p
        return A.item(self.arr(v)) if isinstance(v, ArrV) else None

    def number(self, v):
        """Scalar polynomial of a number-like value; anything else is an error of the analysed code."""
        p = self.num_or(v)
        if p is None:
            if isinstance(self.res(v), MaskedV):
                raise Undecided("selection used as a number")
            self.py_raise("TypeError", f"a number is required, not {self.type_of(self.res(v)).name}")
        return p

    def num(self, v):
        """Scalar polynomial of a number-like value, for library functions whose model needs one."""
        p = self.num_or(v)
        if p is None:
            raise Undecided(f"{self.type_of(self.res(v)).name} instead of a number")
        return p

    def items(self, v):
        """Elements of an iterable as a list of V / MapSeg."""
        v = self.res(v)
        if isinstance(v, (Tup, NT)):
            return list(v.items)
        if isinstance(v, RangeV):
            n = self.len_of(v).p
            lo, st = self.number(v.lo), self.number(v.step)
            return self.seq(n, lambda i: Num(add(lo, mul(i, st)), "int"))
        if isinstance(v, Str):
            if v.lit is not None:
                return [Str(c) for c in v.lit]
            raise Undecided("iteration over a symbolic string")
        if isinstance(v, MaskedV):
            raise Undecided("iteration over a selection")
        if isinstance(v, ArrV):
            a = self.arr(v)
            if a.ndim == 0:
                self.py_raise("TypeError", "iteration over a 0-d array")
            out = []
            off = ZERO
            for s in a.axes[0]:
                if s is ONE:
                    out.append(self.arr_item(v, a, off))
                else:
                    i = T.fresh_idx(s)
                    out.append(MapSeg(s, i, [self.arr_item(v, a, add(off, atom(i)))]))
                off = add(off, s)
            return out
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, (ListC, SetC)):
                return list(c.items)
            if isinstance(c, DictC):
                return [k for k, _ in c.items]
            if isinstance(c, IterC):
                self.state[v.cell] = IterC(())
                return list(c.items)
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__iter__")
                if m is not None:
                    return self.items(self.call(m, [v], {}))
                if c.cls.find("__getitem__")[0] is not None:
                    raise Undecided("iteration through __getitem__")
        if isinstance(v, Ext):
            raise Undecided("iteration over " + v.name)
        self.py_raise("TypeError", f"'{self.type_of(v).name}' object is not iterable")

    def seq(self, n, f):
        c = n.const
        if c is not None:
            if c > 4096:
                raise Undecided("long sequence")
            return [f(T.num(k)) for k in range(int(c))]
        i = T.fresh_idx(n)
        return [MapSeg(n, i, [f(atom(i))])]

    def concrete(self, v, what="sequence"):
        it = self.items(v)
        if any(isinstance(x, (MapSeg, PreSeg)) for x in it):
            raise Undecided(what + " of symbolic length")
        return it

    def arr_item(self, v, a, i):
        if a.ndim == 1:
            return self.np_scalar(self.native(A.elem_at, a, 0, i))
        return ArrV(v.cell, v.sub, v.views + (("idx", (("i", i),)),))

    def np_scalar(self, a):
        return Num(a.blocks[()], {"int": "npint", "bool": "npbool"}.get(a.dtype, "npfloat"))

    def dict_items(self, v):
        v = self.res(v)
        c = self.content(v) if isinstance(v, Ref) else None
        if isinstance(c, DictC):
            return list(c.items)
        if isinstance(c, ObjC) and c.cls.find("keys")[0] is not None:
            return [(k, self.getitem(v, k)) for k in self.concrete(self.call(self.getattr(v, "keys"), [], {}))]
        self.py_raise("TypeError", f"'{self.type_of(v).name}' object is not a mapping")

    # ------------------------------------------------------------ arrays
    def as_arr(self, v, dtype=None):
        """Array content (fresh copy semantics) of an array-like value."""
        v = self.res(v)
        if isinstance(v, Num):
            return A.scalar(v.p, base_ty(v.ty))
        if isinstance(v, ArrV):
            return self.arr(v)
        if isinstance(v, MaskedV):
            raise Undecided("selection used as an array")
        if isinstance(v, RangeV):
            n = self.len_of(v).p
            lo, st = self.number(v.lo), self.number(v.step)
            return A.build([n], lambda i: add(lo, mul(i, st)), "int")
        if isinstance(v, (Tup, NT)) or isinstance(v, Ref):
            if isinstance(v, Ref):
                c = self.content(v)
                if isinstance(c, ObjC):
                    m, _ = c.cls.find("__array__")
                    if m is not None:
                        return self.as_arr(self.call(m, [v], {}))
                    return A.scalar(T.fn("object", T.num(v.cell)), "obj")
                if isinstance(c, DictC) or isinstance(c, SetC):
                    raise Undecided("array of a dict")
                items = list(c.items)
                if isinstance(c, IterC):
                    raise Undecided("array of an iterator")
            else:
                items = list(v.items)
            if not items:
                return ArrC(((),), {}, "float")
            parts = []
            for x in items:
                if isinstance(x, PreSeg):
                    raise Undecided("loop carried list")
                if isinstance(x, MapSeg):
                    if len(x.vals) != 1:
                        raise Undecided("array of an interleaved sequence")
                    e = self.as_arr(x.vals[0])
                    e = A.newaxis(e, 0)
                    if x.n is ONE:
                        parts.append(A.fmap(lambda q: T.subst(q, {x.idx: ZERO}), e))
                        continue
                    ax0 = A.ax(0, x.n)
                    e = ArrC(((x.n,),) + e.axes[1:], {k: T.subst(q, {x.idx: ax0}) for k, q in e.blocks.items()}, e.dtype)
                    parts.append(e)
                else:
                    parts.append(A.newaxis(self.as_arr(x), 0))
            shapes = {p.shape[1:] for p in parts}
            if len(shapes) > 1:
                nd = {p.ndim for p in parts}
                raise ShapeError("setting an array element with a sequence (inhomogeneous shape)")
            return A.concat(parts, 0)
        if isinstance(v, Str):
            return A.scalar(T.fn("str", v.lit or "?"), "obj")
        if v is NONE:
            return A.scalar(T.fn("None"), "obj")
        if isinstance(v, Ext):
            raise Undecided("array of " + v.name)
        return A.scalar(T.fn("object", T.num(id(v) % 100003)), "obj")

    # ------------------------------------------------------------ operators
    def unary(self, op, v):
        v = self.res(v)
        if isinstance(v, Num):
            if op == "USub":
                return Num(neg(v.p), "int" if v.ty == "bool" else v.ty)
            if op == "UAdd":
                return v
            if op == "Invert":
                if v.ty == "npbool":
                    return Num(T.c_not(v.p), "npbool")
                if v.ty in ("int", "bool"):
                    return Num(add(neg(v.p), neg(ONE)), "int")
        if isinstance(v, ArrV):
            a = self.arr(v)
            if op == "USub":
                return self.result(A.fmap(neg, a))
            if op == "UAdd":
                return self.result(a)
            if op == "Invert" and a.dtype == "bool":
                return self.result(A.fmap(T.c_not, a))
        if isinstance(v, MaskedV):
            return MaskedV(self.unary(op, v.arr), v.mask)
        if isinstance(v, Ref):
            m = self.getattr_opt(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is not None:
                return self.call(m, [], {})
        self.py_raise("TypeError", f"bad operand type for unary {op}: '{self.type_of(v).name}'")

    def is_arr(self, v):
        return isinstance(v, (ArrV, MaskedV))

    def num_type(self, op, a, b):
        np_ = is_np(a) or is_np(b)
        x, y = base_ty(a), base_ty(b)
        if op == "Div":
            r = "float"
        elif "float" in (x, y):
            r = "float"
        elif np_ and x == y == "bool":
            r = "bool" if op in ("Add", "Mult") else "int"
        else:
            r = "int"
        return ("np" if np_ else "") + r

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.num_op(op, a, b)
        if isinstance(a, MaskedV) or isinstance(b, MaskedV):
            return self.masked_op(op, a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV) or self.np_like(a) and self.seq_like(b) or self.np_like(b) and self.seq_like(a):
            for x in (a, b):
                if x is NONE or isinstance(x, Str) or isinstance(x, Ref) and isinstance(self.content(x), (DictC, SetC)):
                    self.py_raise("TypeError", f"unsupported operand type(s) for {_SYM[op]}: '{self.type_of(a).name}' and '{self.type_of(b).name}'")
            r = self.obj_binop(op, a, b)
            if r is not None:
                return r
            x, y = self.as_arr(a), self.as_arr(b)
            return self.arr_op(op, x, y)
        if isinstance(a, Str) and isinstance(b, Str) and op == "Add":
            return Str(a, b)
        if isinstance(a, Str) and op == "Mod":
            return self.percent(a, b)
        if isinstance(a, Str) and isinstance(b, Num) and op == "Mult" and b.p.const is not None and a.lit is not None:
            return Str(a.lit * int(b.p.const))
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)) and op == "Add":
            return Tup(list(a.items) + list(b.items))
        if isinstance(a, Num) and isinstance(b, (Tup, Ref)) and op == "Mult":
            a, b = b, a
        if isinstance(a, Tup) and isinstance(b, Num) and op == "Mult":
            return Tup(self.repeat(a.items, b.p))
        if isinstance(a, Ref):
            ca = self.content(a)
            cb = self.content(b) if isinstance(b, Ref) else None
            if op in ("BitAnd", "BitOr", "BitXor", "Sub") and isinstance(b, Ref):
                ca, cb = self.as_keys(a, ca), self.as_keys(b, cb)
            if isinstance(ca, ListC) and isinstance(cb, ListC) and op == "Add":
                return self.new_list(ca.items + cb.items)
            if isinstance(ca, ListC) and isinstance(b, Num) and op == "Mult" and base_ty(b.ty) != "float":
                return self.new_list(self.repeat(ca.items, b.p))
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                return self.set_op(op, ca, cb)
            if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "BitOr":
                r = self.new_dict(ca.items)
                for k, v in cb.items:
                    self.setitem(r, k, v)
                return r
        r = self.obj_binop(op, a, b)
        if r is not None:
            return r
        if isinstance(a, Ext) or isinstance(b, Ext):
            raise Undecided("operator on an external object")
        self.py_raise("TypeError", f"unsupported operand type(s) for {_SYM[op]}: '{self.type_of(a).name}' and '{self.type_of(b).name}'")

    def np_like(self, v):
        return isinstance(v, Num) and is_np(v.ty)

    def seq_like(self, v):
        return isinstance(v, Tup) or isinstance(v, Ref) and isinstance(self.content(v), ListC)

    def obj_binop(self, op, a, b):
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref):
                c = self.content(x)
                if isinstance(c, ObjC):
                    m, _ = c.cls.find(pre + _DUNDER.get(op, "?") + "__")
                    if m is not None:
                        return self.call(m, [x, y], {})
        return None

    def repeat(self, items, n):
        c = n.const
        if c is not None:
            return tuple(items) * max(int(c), 0)
        if not any(isinstance(x, (MapSeg, PreSeg)) for x in items):
            return (MapSeg(n, T.fresh_idx(n), items),)
        raise Undecided("repeated sequence")

    def as_keys(self, v, c):
        """The keys of a dictionary take part in set operations."""
        return SetC(c.items) if isinstance(c, ListC) and self.info[v.cell].kind == "keys" else c

    def set_op(self, op, a, b):
        keep = []
        if op == "BitOr":
            r = Ref(self.new("set", a))
            for x in b.items:
                self.set_add(r, x)
            return r
        for x in a.items:
            isin = any(self.decide(self.eq(x, y)) for y in b.items)
            if isin == (op == "BitAnd"):
                keep.append(x)
        if op in ("BitAnd", "Sub"):
            return Ref(self.new("set", SetC(keep)))
        raise Undecided("set operation")

    def num_op(self, op, a, b):
        ty = self.num_type(op, a.ty, b.ty)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if base_ty(a.ty) == base_ty(b.ty) == "bool":
                f = {"BitAnd": mul, "BitOr": p_or, "BitXor": p_xor}[op]
                return Num(f(a.p, b.p), "npbool" if is_np(ty) else "bool")
            x, y = a.p.const, b.p.const
            if x is not None and y is not None:
                f = {"BitAnd": int.__and__, "BitOr": int.__or__, "BitXor": int.__xor__}[op]
                return Num(T.num(f(int(x), int(y))), ty)
            raise Undecided("bit operation")
        if op == "MatMult":
            self.py_raise("TypeError", "unsupported operand type(s) for @")
        f = PF.get(op)
        if f is None:
            raise Undecided("operator " + op)
        if op in ("Div", "FloorDiv", "Mod") and not is_np(ty):
            self.py_raise("ZeroDivisionError", "division by zero", T.eq0(b.p))
        if op == "Pow":
            c = b.p.const
            if base_ty(ty) == "int" and c is not None and c < 0:
                ty = "npfloat" if is_np(ty) else "float"
            elif c is None and base_ty(ty) == "int":
                ty = "npfloat" if is_np(ty) else "float"
        return Num(f(a.p, b.p), ty)

    def arr_op(self, op, x, y):
        if op == "MatMult":
            return self.result(self.native(A.matmul, x, y))
        dt = A.promote(x.dtype, y.dtype)
        if dt == "obj":
            raise Undecided("object array")
        if op in ("BitAnd", "BitOr", "BitXor"):
            if x.dtype == y.dtype == "bool":
                f = {"BitAnd": mul, "BitOr": p_or, "BitXor": p_xor}[op]
                return self.result(self.native(A.ew, f, x, y, dtype="bool"))
            raise Undecided("bit operation")
        f = PF.get(op)
        if f is None:
            raise Undecided("operator " + op)
        if op == "Div":
            dt = "float"
        elif dt == "bool":
            if op == "Sub":
                self.py_raise("TypeError", "numpy boolean subtract is not supported")
            if op == "Add":
                f = p_or
            elif op != "Mult":
                dt = "int"
        return self.result(self.native(A.ew, f, x, y, dtype=dt))

    def masked_op(self, op, a, b):
        ms = [x.mask for x in (a, b) if isinstance(x, MaskedV)]
        if len(ms) == 2 and ms[0].key() is not ms[1].key():
            raise Undecided("selections with different masks")
        for x in (a, b):
            if isinstance(x, ArrV):
                raise Undecided("selection combined with an array")
        ua = a.arr if isinstance(a, MaskedV) else a
        ub = b.arr if isinstance(b, MaskedV) else b
        return MaskedV(self.binop(op, ua, ub), ms[0])

    def inplace(self, op, a, b):
        a = self.res(a)
        if isinstance(a, ArrV):
            b = self.res(b)
            x = self.arr(a)
            y = self.as_arr(b)
            if op == "MatMult":
                raise Undecided("inplace matmul")
            r = self.res(self.arr_op(op, x, y))
            ra = self.as_arr(r)
            if ra.shape != x.shape:
                self.py_raise("ValueError", "non-broadcastable output operand")
            order = ["bool", "int", "float", "complex"]
            if x.dtype in order and ra.dtype in order and order.index(ra.dtype) > order.index(x.dtype):
                self.py_raise("TypeError", f"Cannot cast ufunc output from dtype('{ra.dtype}') to dtype('{x.dtype}')")
            if isinstance(x.dtype, A.Single):
                ra = A.single(ra)
            if x.ndim == 0 and not a.views:
                self.write_arr(a, ra)
                return a
            self.write_arr(a, ra)
            return a
        if isinstance(a, Ref):
            c = self.content(a)
            if isinstance(c, ListC) and op == "Add":
                self.put(a, ListC(c.items + tuple(self.items(b))))
                return a
            if isinstance(c, ListC) and op == "Mult":
                self.put(a, ListC(self.repeat(c.items, self.number(b))))
                return a
            if isinstance(c, SetC) and op == "BitOr":
                for x in self.items(b):
                    self.set_add(a, x)
                return a
            if isinstance(c, DictC) and op == "BitOr":
                for k, v in self.dict_items(b):
                    self.setitem(a, k, v)
                return a
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__i" + _DUNDER.get(op, "?") + "__")
                if m is not None:
                    return self.call(m, [a, b], {})
        return self.binop(op, a, b)

    # ------------------------------------------------------------ comparison
    def compare_op(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return boolv(r if op == "Is" else T.c_not(r))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return boolv(r if op == "In" else T.c_not(r))
        a, b = self.res(a), self.res(b)
        if isinstance(a, Num) and isinstance(b, Num):
            p = CMPF[op](a.p, b.p)
            return Num(p, "npbool") if is_np(a.ty) or is_np(b.ty) else boolv(p)
        if isinstance(a, MaskedV) or isinstance(b, MaskedV):
            ms = [x.mask for x in (a, b) if isinstance(x, MaskedV)]
            if len(ms) == 2 and ms[0].key() is not ms[1].key() or any(isinstance(x, ArrV) for x in (a, b)):
                raise Undecided("comparison of selections")
            return MaskedV(self.compare_op(op, a.arr if isinstance(a, MaskedV) else a, b.arr if isinstance(b, MaskedV) else b), ms[0])
        if isinstance(a, (ArrV,)) or isinstance(b, (ArrV,)):
            if any(x is NONE or isinstance(x, Str) for x in (a, b)):
                if op == "Eq":
                    raise Undecided("array compared with None")
            x, y = self.as_arr(a), self.as_arr(b)
            if op in ("Eq", "NotEq"):
                try:
                    return self.result(A.ew(CMPF[op], x, y, dtype="bool"))
                except ShapeError:
                    return FALSE if op == "Eq" else TRUE
            return self.result(self.native(A.ew, CMPF[op], x, y, dtype="bool"))
        for x, y, o in ((a, b, op), (b, a, _SWAP[op])):
            if isinstance(x, Ref):
                c = self.content(x)
                if isinstance(c, ObjC):
                    m, _ = c.cls.find("__" + _CMPD[o] + "__")
                    if m is not None:
                        return self.call(m, [x, y], {})
                    if op == "NotEq" and c.cls.find("__eq__")[0] is not None:
                        return boolv(T.c_not(self.truth(self.call(c.cls.find("__eq__")[0], [x, y], {}))))
        if op in ("Eq", "NotEq"):
            r = self.eq(a, b)
            return boolv(r if op == "Eq" else T.c_not(r))
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
            return boolv(self.lex(op, list(a.items), list(b.items)))
        if isinstance(a, Str) and isinstance(b, Str) and a.lit is not None and b.lit is not None:
            return boolv(ONE if {"Lt": a.lit < b.lit, "LtE": a.lit <= b.lit, "Gt": a.lit > b.lit, "GtE": a.lit >= b.lit}[op] else ZERO)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                def sub(x, y):
                    r = ONE
                    for i in x.items:
                        r = mul(r, self.contains_items(y.items, i))
                    return r
                if op == "LtE":
                    return boolv(sub(ca, cb))
                if op == "GtE":
                    return boolv(sub(cb, ca))
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return boolv(self.lex(op, list(ca.items), list(cb.items)))
        if isinstance(a, Ext) or isinstance(b, Ext):
            raise Undecided("comparison of an external object")
        self.py_raise("TypeError", f"'{op}' not supported between instances of '{self.type_of(a).name}' and '{self.type_of(b).name}'")

    def lex(self, op, xs, ys):
        strict = op in ("Lt", "Gt")
        f = CMPF["Lt" if op in ("Lt", "LtE") else "Gt"]
        r = ZERO
        eqs = ONE
        for x, y in zip(xs, ys):
            x, y = self.res(x), self.res(y)
            if not (isinstance(x, Num) and isinstance(y, Num)):
                raise Undecided("ordering of sequences")
            r = add(r, mul(eqs, f(x.p, y.p)))
            eqs = mul(eqs, T.eq(x.p, y.p))
        if len(xs) < len(ys):
            last = op in ("Lt", "LtE")
        elif len(xs) > len(ys):
            last = op in ("Gt", "GtE")
        else:
            last = not strict
        return add(r, eqs) if last else r

    def identical(self, a, b):
        if isinstance(a, Ite):
            c = self.simp(a.c)
            if c.const is None:
                x, y = self.identical(a.a, b), self.identical(a.b, b)
                return T.ite(c, x, y)
        if isinstance(b, Ite):
            return self.identical(b, a)
        a, b = self.res(a), self.res(b)
        if a is b:
            return ONE
        if type(a) is not type(b):
            return ZERO
        if isinstance(a, Ref):
            if a.cell != b.cell:
                return ZERO
            if a.sub == b.sub:
                return ONE
            raise Undecided("identity of family members")
        if isinstance(a, ArrV):
            return ONE if self.same(a, b) and not a.views else ZERO
        if isinstance(a, Num):
            if a.ty == b.ty and a.ty in ("bool", "int"):
                return T.eq(a.p, b.p)
            return ZERO
        if isinstance(a, Str):
            return self.eq(a, b)
        return ONE if self.same(a, b) else ZERO

    def eq(self, a, b):
        """Python equality as a condition."""
        if a is b and not isinstance(a, (Ite, Num)):
            return ONE
        if isinstance(a, Ite):
            c = self.simp(a.c)
            if c.const is None and not self.has_undef(a):
                return T.ite(c, self.eq(a.a, b), self.eq(a.b, b))
        if isinstance(b, Ite):
            c = self.simp(b.c)
            if c.const is None and not self.has_undef(b):
                return T.ite(c, self.eq(a, b.a), self.eq(a, b.b))
        a, b = self.res(a), self.res(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return T.eq(a.p, b.p)
        if isinstance(a, Str) and isinstance(b, Str):
            return self.str_eq(a, b)
        if isinstance(a, (Tup, NT)) and isinstance(b, (Tup, NT)):
            return self.seq_eq(a.items, b.items)
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return self.seq_eq(self.items(a), self.items(b))
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            return self.truth(self.compare_op("Eq", a, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.cell == b.cell and a.sub == b.sub:
                return ONE
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, ObjC) or isinstance(cb, ObjC):
                for x, y, c in ((a, b, ca), (b, a, cb)):
                    if isinstance(c, ObjC):
                        m, _ = c.cls.find("__eq__")
                        if m is not None:
                            return self.truth(self.call(m, [x, y], {}))
                if a.cell == b.cell:
                    raise Undecided("equality of family members")
                return ZERO
            if type(ca) is not type(cb):
                return ZERO
            if isinstance(ca, ListC):
                return self.seq_eq(ca.items, cb.items)
            if isinstance(ca, DictC):
                if len(ca.items) != len(cb.items):
                    return ZERO
                r = ONE
                for k, v in ca.items:
                    x = self.dict_find(cb, k)
                    if x is None:
                        return ZERO
                    r = mul(r, self.eq(v, x[1]))
                return r
            if isinstance(ca, SetC):
                if len(ca.items) != len(cb.items):
                    return ZERO
                r = ONE
                for x in ca.items:
                    r = mul(r, self.contains_items(cb.items, x))
                return r
            return ZERO
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                c = self.content(x)
                if isinstance(c, ObjC):
                    m, _ = c.cls.find("__eq__")
                    if m is not None:
                        return self.truth(self.call(m, [x, y], {}))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ext) and x.name.startswith("numpy.dtype[") and isinstance(y, (Cls, Str, Ext)):
                import nplib
                return ONE if nplib.dt(self, x) == nplib.dt(self, y) else ZERO
        if type(a) is not type(b):
            return ZERO
        if isinstance(a, Ext):
            return ONE if a.name == b.name else ZERO
        return ONE if self.same(a, b) else ZERO

    def seq_eq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        if any(isinstance(x, (MapSeg, PreSeg)) for x in xs + ys):
            nx, ny = self.seg_len(xs), self.seg_len(ys)
            if nx is not ny and T.sign_eq0(add(nx, neg(ny))) is False:
                return ZERO
            if len(xs) == len(ys) and all(self.same_item(x, y) for x, y in zip(xs, ys)):
                return ONE
            raise Undecided("equality of sequences of symbolic length")
        if len(xs) != len(ys):
            return ZERO
        r = ONE
        for x, y in zip(xs, ys):
            if x is y:
                continue
            r = mul(r, self.eq(x, y))
            if r is ZERO:
                return r
        return r

    def str_eq(self, a, b):
        if a.lit is not None and b.lit is not None:
            return ONE if a.lit == b.lit else ZERO
        if self.same(a, b):
            return ONE
        # same literal frame with one printed integer
        pa, pb = list(a.parts), list(b.parts)
        while pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return ZERO
            pa[0], pb[0] = pa[0][n:], pb[0][n:]
            pa = pa if pa[0] else pa[1:]
            pb = pb if pb[0] else pb[1:]
        while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][-n:] != pb[-1][-n:]:
                return ZERO
            pa[-1], pb[-1] = pa[-1][:-n], pb[-1][:-n]
            pa = pa if pa[-1] else pa[:-1]
            pb = pb if pb[-1] else pb[:-1]
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if isinstance(x, str) != isinstance(y, str):
                s, n = (x, y) if isinstance(x, str) else (y, x)
                if isinstance(n, Num) and base_ty(n.ty) == "int":
                    if s.isdigit() and (s == "0" or s[0] != "0"):
                        return T.eq(n.p, T.num(int(s)))
                    return ZERO
            elif isinstance(x, Num) and isinstance(y, Num):
                return T.eq(x.p, y.p)
        if (not pa or not pb) and pa != pb:
            rest = pa or pb
            if any(isinstance(x, Num) or isinstance(x, str) and x for x in rest):
                return ZERO
        raise Undecided("equality of symbolic strings")

    def contains_items(self, items, x):
        r = ZERO
        for y in items:
            if isinstance(y, MapSeg):
                for v in y.vals:
                    c = self.eq(v, x)
                    if c is ZERO:
                        continue
                    r = T.c_or(r, T.any_of(y.n, y.idx, c))
                continue
            if isinstance(y, PreSeg):
                raise Undecided("loop carried list")
            r = T.c_or(r, self.eq(y, x))
            if r is ONE:
                return r
        return r

    def contains(self, cont, x):
        cont = self.res(cont)
        if isinstance(cont, Str):
            x = self.res(x)
            if isinstance(x, Str) and x.lit is not None and cont.lit is not None:
                return ONE if x.lit in cont.lit else ZERO
            raise Undecided("substring test")
        if isinstance(cont, RangeV):
            x = self.res(x)
            if not isinstance(x, Num):
                return ZERO
            lo, hi, st = (self.number(v) for v in (cont.lo, cont.hi, cont.step))
            whole = ONE
            if base_ty(x.ty) == "float":
                whole = ONE if T.is_int(x.p) else T.eq(T.fn("floor", x.p), x.p)
            if st is not ONE:
                if any(v.const is None for v in (lo, hi, st, x.p)):
                    raise Undecided("membership in a stepped range")
                v = x.p.const
                return ONE if int(v) == v and int(v) in range(int(lo.const), int(hi.const), int(st.const)) else ZERO
            return mul(whole, mul(T.le(lo, x.p), T.lt(x.p, hi)))
        if isinstance(cont, Ref):
            c = self.content(cont)
            if isinstance(c, DictC):
                self.check_hashable(x)
                r = ZERO
                for k, _ in c.items:
                    r = T.c_or(r, self.eq(k, x))
                return r
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__contains__")
                if m is not None:
                    return self.truth(self.call(m, [cont, x], {}))
        if isinstance(cont, ArrV):
            a = self.arr(cont)
            p = self.number(x)
            r = ZERO
            if all(s is ONE for ax in a.axes for s in ax):
                for q in a.blocks.values():
                    r = T.c_or(r, T.eq(q, p))
                return r
            raise Undecided("membership in an array")
        return self.contains_items(self.items(cont), x)

    # ------------------------------------------------------------ dict / set
    def dict_find(self, c, k):
        for kk, v in c.items:
            if kk is k or self.same(kk, k):
                return kk, v
        for kk, v in c.items:
            e = self.eq(kk, k)
            if e is ZERO:
                continue
            if self.decide(e):
                return kk, v
        return None

    def set_add(self, r, x):
        self.check_hashable(x)
        c = self.content(r)
        if isinstance(x, (MapSeg, PreSeg)):
            raise Undecided("set of symbolic size")
        if self.gate is ZERO:
            return
        if not self.decide(self.contains_items(c.items, x)):
            self.put(r, SetC(c.items + (x,)))

    # ------------------------------------------------------------ indexing
    def const_index(self, i, n):
        """Python index -> position for a concrete length, or None."""
        c = i.const
        if c is None:
            return None
        k = int(c)
        if k < 0:
            k += n
        return k

    def getitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, ArrV):
            return self.arr_get(o, k)
        if isinstance(o, (Tup, NT)):
            r = self.seq_get(list(o.items), k)
            return Tup(r) if isinstance(r, list) else r
        if isinstance(o, Str):
            if o.lit is None:
                raise Undecided("indexing a symbolic string")
            if isinstance(k, SliceV):
                b = [None if x is NONE else int(self.number(x).const) for x in (k.lo, k.hi, k.step)]
                return Str(o.lit[slice(*b)])
            i = self.const_index(self.number(k), len(o.lit))
            if i is None:
                raise Undecided("symbolic index of a string")
            if not 0 <= i < len(o.lit):
                self.py_raise("IndexError", "string index out of range")
            return Str(o.lit[i])
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ListC):
                r = self.seq_get(list(c.items), k)
                return self.new_list(r) if isinstance(r, list) else r
            if isinstance(c, DictC):
                self.check_hashable(k)
                e = self.dict_find(c, k)
                if e is None:
                    if c.default is not None:
                        v = self.call(c.default, [], {})
                        self.setitem(o, k, v)
                        return v
                    self.do_raise(Ref(self.new("obj", ObjC(self.types["KeyError"], {"args": Tup([k])}))))
                return e[1]
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__getitem__")
                if m is not None:
                    return self.call(m, [o, k], {})
        if isinstance(o, RangeV):
            r = self.seq_get(self.items(o), k)
            return r
        if isinstance(o, MaskedV):
            raise Undecided("indexing a selection")
        if isinstance(o, Ext):
            if o.name in ("numpy.s_", "numpy.index_exp"):
                return k
            if o.name in ("numpy.r_", "numpy.c_"):
                ks = k.items if isinstance(k, Tup) else [k]
                f = self.more(o.name)
                return self.call(f, [Tup([self.slice_positions(x) for x in ks])], {})
            if o.name.startswith(("typing.", "numba.", "collections.abc.", "numpy.typing")):
                return o
            raise Undecided("indexing " + o.name)
        if isinstance(o, Cls):
            return o        # type annotation such as list[int]
        if isinstance(o, Num) and is_np(o.ty):
            self.py_raise("IndexError", "invalid index to scalar variable.")
        self.py_raise("TypeError", f"'{self.type_of(o).name}' object is not subscriptable")

    def slice_positions(self, x):
        """start:stop:step within numpy.r_ as an array."""
        x = self.res(x)
        if not isinstance(x, SliceV):
            return x
        st, hi = self.res(x.step), self.res(x.hi)
        if hi is NONE:
            raise Undecided("open slice")
        lo = self.res(x.lo)
        args = [intv(0) if lo is NONE else lo, hi] + ([] if st is NONE else [st])
        return self.call(self.extcalls_fn("numpy.arange"), args, {})

    def extcalls_fn(self, n):
        return Built(n, self.extcalls[n])

    def seq_get(self, items, k):
        sym = any(isinstance(x, (MapSeg, PreSeg)) for x in items)
        if isinstance(k, SliceV):
            if not sym:
                b = []
                for x in (k.lo, k.hi, k.step):
                    if self.res(x) is NONE:
                        b.append(None)
                        continue
                    c = self.number(x).const
                    if c is None:
                        raise Undecided("symbolic slice of a list")
                    b.append(int(c))
                return items[slice(*b)]
            if self.res(k.step) is not NONE and self.number(k.step) is not ONE:
                if self.res(k.lo) is NONE and self.res(k.hi) is NONE and self.number(k.step) is neg(ONE):
                    out = []
                    for x in reversed(items):
                        if isinstance(x, MapSeg):
                            mp = {x.idx: psub(psub(x.n, ONE), atom(x.idx))}
                            out.append(MapSeg(x.n, x.idx, [self.sub_val(v, mp) for v in reversed(x.vals)]))
                        else:
                            out.append(x)
                    return out
                raise Undecided("stepped slice of a symbolic list")
            n = self.seg_len(items)
            lo = A.clip_bound(None if self.res(k.lo) is NONE else self.number(k.lo), n, ZERO)
            hi = A.clip_bound(None if self.res(k.hi) is NONE else self.number(k.hi), n, n)
            return self.seg_slice(items, lo, hi)
        if not isinstance(k, Num) or base_ty(k.ty) == "float":
            if isinstance(k, Ref) and isinstance(self.content(k), ObjC):
                m = self.getattr_opt(k, "__index__")
                if m is not None:
                    return self.seq_get(items, self.call(m, [], {}))
            if isinstance(k, ArrV):
                a = self.arr(k)
                p = A.item(a)
                if p is not None and a.dtype == "int":
                    return self.seq_get(items, Num(p, "int"))
            self.py_raise("TypeError", "list indices must be integers or slices")
        if not sym:
            i = self.const_index(k.p, len(items))
            if i is not None:
                if not 0 <= i < len(items):
                    self.py_raise("IndexError", "list index out of range")
                return items[i]
            n = len(items)
            p = k.p
            if T.sign_lt0(p) is True:
                p = add(p, T.num(n))
            self.py_raise("IndexError", "list index out of range", T.c_or(T.lt(p, T.num(-n)), T.le(T.num(n), p)))
            if T.sign_lt0(p) is None:
                p = add(p, mul(T.lt0(p), T.num(n)))
            r = items[-1]
            for j in range(n - 2, -1, -1):
                r = self.mk_ite(T.eq(p, T.num(j)), items[j], r)
            return r
        n = self.seg_len(items)
        p = A.norm_index(k.p, n)
        off = ZERO
        cands = []
        for x in items:
            ln = mul(x.n, T.num(len(x.vals))) if isinstance(x, MapSeg) else ONE
            r = psub(p, off)
            below = T.sign_lt0(r)
            above = T.sign_lt0(psub(r, ln))
            if below is not True and above is not False:
                cands.append((x, r, ln, below is False and above is True))
            off = add(off, ln)
        for x, r, ln, sure in cands:
            if sure:
                cands = [(x, r, ln, True)]
                break
        if not cands:
            self.py_raise("IndexError", "list index out of range")
        out = None
        for x, r, ln, sure in reversed(cands):
            if isinstance(x, MapSeg):
                if len(x.vals) != 1:
                    raise Undecided("interleaved list")
                v = self.sub_val(x.vals[0], {x.idx: r})
            else:
                v = x
            if out is None:
                out = v
            else:
                out = self.mk_ite(T.lt(r, ln), v, out)
        return out

    def seg_slice(self, items, lo, hi):
        out = []
        off = ZERO
        for x in items:
            ln = mul(x.n, T.num(len(x.vals))) if isinstance(x, MapSeg) else ONE
            end = add(off, ln)
            if A.le_(end, lo) is True or A.le_(hi, off) is True:
                off = end
                continue
            a_in, b_in = A.le_(lo, off), A.le_(end, hi)
            if a_in is True and b_in is True:
                out.append(x)
            elif isinstance(x, MapSeg) and len(x.vals) == 1:
                s = ZERO if a_in is True else psub(lo, off)
                e = ln if b_in is True else psub(hi, off)
                if a_in is None and not (A.le_(off, lo) is True) or b_in is None and not (A.le_(hi, end) is True):
                    raise Undecided("slice of a symbolic list")
                n = psub(e, s)
                i = T.fresh_idx(n)
                out.append(MapSeg(n, i, [self.sub_val(x.vals[0], {x.idx: add(atom(i), s)})]))
            else:
                raise Undecided("slice of a symbolic list")
            off = end
        return out

    def setitem(self, o, k, v):
        o, k = self.res(o), self.res(k)
        if isinstance(o, ArrV):
            return self.arr_set(o, k, v)
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ListC):
                return self.list_set(o, c, k, v)
            if isinstance(c, DictC):
                self.check_hashable(k)
                e = self.dict_find(c, k)
                if e is None:
                    self.put(o, DictC(c.items + ((k, v),), c.default))
                else:
                    self.put(o, DictC([(kk, v if kk is e[0] else vv) for kk, vv in c.items], c.default))
                return
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__setitem__")
                if m is not None:
                    self.call(m, [o, k, v], {})
                    return
        if isinstance(o, Ext):
            raise Undecided("store into " + o.name)
        self.py_raise("TypeError", f"'{self.type_of(o).name}' object does not support item assignment")

    def list_set(self, o, c, k, v):
        items = list(c.items)
        sym = any(isinstance(x, (MapSeg, PreSeg)) for x in items)
        if isinstance(k, SliceV):
            if sym:
                raise Undecided("slice assignment to a symbolic list")
            b = []
            for x in (k.lo, k.hi, k.step):
                if self.res(x) is NONE:
                    b.append(None)
                else:
                    q = self.number(x).const
                    if q is None:
                        raise Undecided("symbolic slice assignment")
                    b.append(int(q))
            items[slice(*b)] = self.concrete(v)
            self.put(o, ListC(items))
            return
        if not isinstance(k, Num) or base_ty(k.ty) == "float":
            self.py_raise("TypeError", "list indices must be integers or slices")
        if not sym:
            i = self.const_index(k.p, len(items))
            if i is not None:
                if not 0 <= i < len(items):
                    self.py_raise("IndexError", "list assignment index out of range")
                items[i] = v
            else:
                n = len(items)
                p = k.p
                self.py_raise("IndexError", "list assignment index out of range",
                              T.c_or(T.lt(p, T.num(-n)), T.le(T.num(n), p)))
                if T.sign_lt0(p) is not False:
                    p = add(p, mul(T.lt0(p), T.num(n)))
                items = [self.mk_ite(T.eq(p, T.num(j)), v, x) for j, x in enumerate(items)]
            self.put(o, ListC(items))
            return
        n = self.seg_len(items)
        p = A.norm_index(k.p, n)
        off = ZERO
        out = []
        for x in items:
            ln = mul(x.n, T.num(len(x.vals))) if isinstance(x, MapSeg) else ONE
            r = psub(p, off)
            if T.sign_lt0(r) is True or T.sign_lt0(psub(r, ln)) is False:
                out.append(x)
            elif isinstance(x, MapSeg):
                if len(x.vals) != 1:
                    raise Undecided("interleaved list")
                out.append(MapSeg(x.n, x.idx, [self.mk_ite(T.eq(atom(x.idx), r), v, x.vals[0])]))
            else:
                out.append(self.mk_ite(T.eq0(r), v, x))
            off = add(off, ln)
        self.put(o, ListC(out))

    def delitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, DictC):
                e = self.dict_find(c, k)
                if e is None:
                    self.py_raise("KeyError", str(k))
                self.put(o, DictC([x for x in c.items if x[0] is not e[0]], c.default))
                return
            if isinstance(c, ListC) and isinstance(k, Num) and not any(isinstance(x, (MapSeg, PreSeg)) for x in c.items):
                i = self.const_index(k.p, len(c.items))
                if i is not None:
                    if not 0 <= i < len(c.items):
                        self.py_raise("IndexError", "list assignment index out of range")
                    self.put(o, ListC(c.items[:i] + c.items[i + 1:]))
                    return
        raise Undecided("deletion")

    # ------------------------------------------------------------ array indexing
    def parse_index(self, a, k):
        """('view', specs) | ('mask', content) | ('fancy', axis, content)"""
        ks = list(k.items) if isinstance(k, Tup) else [k]
        ks = [self.res(x) for x in ks]
        if any(isinstance(x, MaskedV) for x in ks):
            return ("mask", self.positions_mask(a, ks))
        nd = a.ndim
        if len(ks) > 1:
            ks = self.mask_positions(ks)
        used = sum(1 for x in ks if x is not NONE and x is not ELL)
        specs = []
        fancy = None
        more = []
        d = 0
        for x in ks:
            if x is ELL:
                for _ in range(nd - used):
                    specs.append(("all",))
                    d += 1
                continue
            if x is NONE:
                specs.append(("new",))
                continue
            if isinstance(x, (ArrV,)) or isinstance(x, Ref):
                c = self.as_arr(x)
                if c.dtype == "bool":
                    if len(ks) == 1:
                        return ("mask", c)
                    raise Undecided("mask within an index tuple")
                if c.ndim == 0:
                    x = Num(c.blocks[()], "int")
                else:
                    if c.dtype == "float" and c.blocks:
                        self.py_raise("IndexError", "arrays used as indices must be of integer (or boolean) type")
                    if d >= nd:
                        self.py_raise("IndexError", "too many indices for array")
                    fancy = fancy or (d, c)
                    more.append((d, c))
                    specs.append(("all",))
                    d += 1
                    continue
            if d >= nd:
                self.py_raise("IndexError", "too many indices for array")
            n = A.total(a.axes[d])
            if isinstance(x, Num):
                if base_ty(x.ty) != "int":
                    if base_ty(x.ty) == "bool":
                        raise Undecided("boolean index")
                    self.py_raise("IndexError", "only integers, slices (`:`), ellipsis and integer or boolean arrays are valid indices")
                c = x.p.const
                p = A.norm_index(x.p, n)
                if T.sign_lt0(p) is True or T.sign_lt0(psub(p, n)) is False:
                    self.py_raise("IndexError", f"index {T.show(x.p)} is out of bounds for axis {d} with size {T.show(n)}")
                specs.append(("i", p))
                d += 1
            elif isinstance(x, SliceV):
                st = self.res(x.step)
                if st is not NONE and self.number(st) is not ONE:
                    if self.number(st) is neg(ONE) and self.res(x.lo) is NONE and self.res(x.hi) is NONE:
                        specs.append(("rev",))
                        d += 1
                        continue
                    c = self.stepped(x, n)
                    if fancy is not None or any(isinstance(y, ArrV) or isinstance(y, Ref) for y in ks):
                        raise Undecided("stepped slice with an index array")
                    fancy = (d, c, "view")
                    more.append((d, c))
                    specs.append(("all",))
                    d += 1
                    continue
                lo, hi = self.res(x.lo), self.res(x.hi)
                for y in (lo, hi):
                    if y is not NONE and not isinstance(y, ArrV) and (not isinstance(y, Num) or base_ty(y.ty) == "float"):
                        self.py_raise("TypeError", "slice indices must be integers or None or have an __index__ method")
                if lo is NONE and hi is NONE:
                    specs.append(("all",))
                else:
                    lo = A.clip_bound(None if lo is NONE else self.number(lo), n, ZERO)
                    hi = A.clip_bound(None if hi is NONE else self.number(hi), n, n)
                    if A.le_(lo, hi) is False:
                        hi = lo
                    elif A.le_(lo, hi) is None:
                        raise Undecided("order of slice bounds")
                    specs.append(("r", lo, hi))
                d += 1
            elif isinstance(x, Str):
                self.py_raise("IndexError", "only integers, slices and arrays are valid indices")
            else:
                raise Undecided("array index")
        if d > nd:
            self.py_raise("IndexError", "too many indices for array")
        if fancy is not None:
            if len(more) > 1 or fancy[1].ndim > 1:
                if len(fancy) > 2:
                    raise Undecided("two stepped slices")
                return ("adv", tuple(specs), more)
            return ("fancy", tuple(specs), fancy)
        return ("view", tuple(specs))

    def positions_mask(self, a, ks):
        """Condition whose positions (numpy.nonzero) are used as the index."""
        m = ks[0]
        if len(ks) != m.mask.ndim or any(not isinstance(x, MaskedV) or x.mask.key() is not m.mask.key() for x in ks):
            raise Undecided("index taken from a selection")
        for d, x in enumerate(ks):
            if self.as_arr(x.arr).key() is not A.grid(m.mask, d).key():
                raise Undecided("index taken from a selection")
        return m.mask

    def mask_positions(self, ks):
        """Known conditions within an index tuple, as positions."""
        out = []
        for x in ks:
            if isinstance(x, ArrV) or isinstance(x, Ref):
                c = self.as_arr(x)
                if c.dtype == "bool":
                    pos = A.true_positions(c)
                    if pos is None:
                        raise Undecided("mask within an index tuple")
                    out += [self.new_arr(p) for p in pos]
                    continue
            out.append(x)
        return out

    def stepped(self, x, n):
        """Positions of a slice with a step."""
        st, lo, hi = self.res(x.step), self.res(x.lo), self.res(x.hi)
        b = []
        for y in (lo, hi, st):
            if y is not NONE and (not isinstance(y, Num) or self.number(y).const is None):
                raise Undecided("stepped slice")
            b.append(None if y is NONE else int(self.number(y).const))
        if n.const is None:
            raise Undecided("stepped slice")
        if b[2] == 0:
            self.py_raise("ValueError", "slice step cannot be zero")
        return A.from_list([T.num(i) for i in range(*slice(*b).indices(int(n.const)))], "int")

    def adv_prep(self, a, specs):
        """Apply the integers and slices of an index; axes of the index arrays afterwards."""
        if any(s[0] in ("new", "rev") for s in specs):
            raise Undecided("extended index with index arrays")
        return [sum(1 for s in specs[:d] if s[0] != "i") for d in range(len(specs))]

    def arr_get(self, o, k):
        a = self.arr(o)
        r = self.parse_index(a, k)
        if r[0] == "view":
            specs = r[1]
            c = self.native(self.index_arr, a, specs)
            nint = sum(1 for s in specs if s[0] == "i")
            if c.ndim == 0 and nint == a.ndim and a.ndim:
                if a.dtype == "obj":
                    raise Undecided("object array element")
                return self.np_scalar(c)
            return ArrV(o.cell, o.sub, o.views + (("idx", specs),))
        if r[0] == "mask":
            m = r[1]
            if m.shape != a.shape[:m.ndim] and not (m.ndim == 0):
                self.py_raise("IndexError", "boolean index did not match indexed array")
            if all(p.const is not None for p in m.blocks.values()) and m.ndim == 1 and all(s is ONE for s in m.axes[0]):
                sel = [k[0] for k in sorted(m.blocks) if m.blocks[k] is ONE]
                if not all(s is ONE for s in a.axes[0]):
                    a = A.split_axis(a, 0, A.bounds(m.axes[0])[:-1])
                return self.new_arr(A.select_segs(a, 0, sel))
            if m.shape != a.shape:
                pos = A.true_positions(m)
                if pos is None:
                    raise Undecided("partial mask")
                return self.new_arr(self.native(A.gather_nd, a, list(range(m.ndim)), pos))
            return MaskedV(self.new_arr(a), m)
        if r[0] == "adv":
            at = self.adv_prep(a, r[1])
            if any(s[0] == "i" for s in r[1]):
                raise Undecided("integers mixed with index arrays")
            b = self.native(self.index_arr, a, r[1])
            return self.new_arr(self.native(A.gather_nd, b, [at[d] for d, _ in r[2]], [c for _, c in r[2]]))
        specs, (d, c) = r[1], r[2][:2]
        if any(s[0] != "all" for s in specs):
            b = self.native(self.index_arr, a, specs)
            d = sum(1 for s in specs[:d] if s[0] != "i")
        else:
            b = a
        if c.ndim != 1:
            raise Undecided("index array with several dimensions")
        out = self.new_arr(self.native(A.gather_arr, b, d, c))
        if len(r[2]) > 2:
            self.info[out.cell].kind = "stepped"    # numpy returns a view here
        return out

    def arr_set(self, o, k, v):
        a = self.arr(o)
        r = self.parse_index(a, k)
        vv = self.res(v)
        val = self.as_arr(vv.arr if isinstance(vv, MaskedV) and r[0] == "mask" else v)
        if val.dtype == "obj":
            vv = self.res(v)
            if vv is NONE:
                if a.dtype == "float":
                    raise Undecided("None stored in an array")
                self.py_raise("TypeError", "int() argument must not be None")
            if isinstance(vv, Str):
                self.py_raise("ValueError", "could not convert string to float")
            raise Undecided("object stored in an array")
        if isinstance(a.dtype, A.Single) and not isinstance(val.dtype, A.Single):
            val = A.single(val)
        if a.dtype == "int" and val.dtype == "float":
            val = A.fmap(lambda p: p if T.is_int(p) else T.fn("trunc", p), val)
        if a.dtype == "bool" and val.dtype != "bool":
            val = A.fmap(lambda p: T.c_not(T.eq0(p)), val)
        if r[0] == "view":
            specs = list(r[1])
            if any(s[0] in ("new", "rev") for s in specs):
                if all(s[0] in ("all", "rev", "new") for s in specs) and sum(s[0] == "rev" for s in specs) == 1 and a.ndim == 1:
                    val = A.reverse(self.native(A.bcast, [val, a])[0], 0)
                    specs = [("all",)]
                else:
                    raise Undecided("store through a reversed or extended index")
            while len(specs) < a.ndim:
                specs.append(("all",))
            if val.ndim >= 1 and all(s[0] == "i" for s in specs):
                p = A.item(val)
                if p is None:
                    self.py_raise("ValueError", "setting an array element with a sequence.")
                val = A.scalar(p, val.dtype)
            new = self.native(A.where_region, a, specs, val)
            self.write_arr(o, new)
            return
        if r[0] == "mask":
            m = r[1]
            if not isinstance(vv, MaskedV) and val.ndim == a.ndim == m.ndim == 1 and A.item(val) is None and m.shape == a.shape \
                    and all(p.const is not None for p in m.blocks.values()):
                ma, aa = self.native(A.bcast, [m, a])
                offs = A.offsets(ma.axes[0])
                sel = [i for i in range(len(ma.axes[0])) if ma.blocks[(i,)] is ONE]
                segs = [ma.axes[0][i] for i in sel]
                n = A.total(tuple(segs))
                if A.total(val.axes[0]) is not n:
                    d = psub(A.total(val.axes[0]), n)
                    if d.const is None:
                        raise Undecided("number of selected elements")
                    self.py_raise("ValueError", "NumPy boolean array indexing assignment cannot assign these input values")
                cur, pos = aa, ZERO
                for i in sel:
                    w = aa.axes[0][i]
                    part = self.native(A.take_range, val, 0, pos, add(pos, w))
                    cur = self.native(A.where_region, cur, [("r", offs[i], add(offs[i], w))], part)
                    pos = add(pos, w)
                self.write_arr(o, cur)
                return
            if isinstance(vv, MaskedV):
                if vv.mask.key() is not m.key():
                    raise Undecided("selection assigned through another mask")
                val = self.as_arr(vv.arr)
            elif val.ndim and A.item(val) is None:
                raise Undecided("array assigned through a mask")
            elif val.ndim:
                val = A.scalar(A.item(val), val.dtype)
            if m.ndim < a.ndim:
                for _ in range(a.ndim - m.ndim):
                    m = A.newaxis(m, m.ndim)
            m2, a2, v2 = self.native(A.bcast, [m, a, val])
            if a2.shape != a.shape:
                self.py_raise("IndexError", "boolean index did not match indexed array")
            self.write_arr(o, ArrC(a2.axes, {k: T.ite(m2.blocks[k], v2.blocks[k], a2.blocks[k]) for k in a2.blocks}, a.dtype))
            return
        if r[0] == "adv" or a.ndim != 1 or any(s[0] != "all" for s in r[1]):
            more = r[2] if r[0] == "adv" else [r[2][:2]]
            self.write_arr(o, self.native(self.adv_store, a, r[1], more, val))
            return
        specs, (d, c) = r[1], r[2][:2]
        cur = a
        idx = [c.blocks[(s,)] for s in range(len(c.axes[0]))]
        if all(s is ONE for s in c.axes[0]):
            vals = self.native(A.bcast, [val, c])[0]
            if vals.shape != c.shape:
                self.py_raise("ValueError", "shape mismatch")
            vals = A.split_axis(vals, 0, A.bounds(c.axes[0])[:-1])
            for j, p in enumerate(idx):
                cur = self.native(A.where_region, cur, [("i", A.norm_index(p, A.total(a.axes[0])))], A.scalar(vals.blocks[(j,)]))
            self.write_arr(o, cur)
            return
        if len(c.axes[0]) == 1 and val.ndim == 0:
            # all positions of a symbolic index array get the same value
            L = c.axes[0][0]
            i = T.fresh_idx(L)
            p = T.subst(idx[0], {T.mk("ax", 0, L): atom(i)})
            out = {}
            offs = A.offsets(a.axes[0])
            for kk, q in a.blocks.items():
                pos = add(offs[kk[0]], A.loc(0, a.axes[0][kk[0]]))
                out[kk] = T.ite(T.any_of(L, i, T.eq(p, pos)), val.blocks[()], q)
            self.write_arr(o, ArrC(a.axes, out, a.dtype))
            return
        raise Undecided("store through a symbolic index array")

    def adv_store(self, a, specs, more, val):
        """Array after a store through index arrays, one position after the other."""
        if any(s[0] in ("new", "rev", "i") for s in specs):
            raise Undecided("store through an index array")
        specs = list(specs) + [("all",)] * (a.ndim - len(specs))
        ias = A.bcast([c for _, c in more])
        if any(s is not ONE for ax in ias[0].axes for s in ax):
            raise Undecided("store through a symbolic index array")
        ds = [d for d, _ in more]
        m = ias[0].ndim
        first = ds[0] if ds == list(range(ds[0], ds[0] + len(ds))) else 0
        cur = a
        # value in the shape of the result, index axes first
        shape = [A.total(x) for x in ias[0].axes]
        rest = []
        for d, s in enumerate(specs):
            if d not in ds:
                rest.append(A.total(a.axes[d]) if s[0] == "all" else psub(s[2], s[1]))
        before = sum(1 for d in range(len(specs)) if d not in ds and d < first)
        full = rest[:before] + shape + rest[before:]
        like = A.build(full, lambda *i: T.ZERO)
        if val.ndim > len(full):
            raise ShapeError("shape mismatch: value array could not be broadcast to the indexing result")
        v, l2 = A.bcast([val, like])
        if v.shape != like.shape:
            raise ShapeError("shape mismatch: value array could not be broadcast to the indexing result")
        for key in A.keys(ias[0].axes):
            piece = v
            for t in range(m - 1, -1, -1):
                piece = A.elem_at(piece, before + t, T.num(key[t]))
            cs = list(specs)
            for d, c in zip(ds, ias):
                cs[d] = ("i", A.norm_index(c.blocks[key], A.total(a.axes[d])))
            cur = A.where_region(cur, cs, piece)
        return cur

    # ------------------------------------------------------------ strings
    def percent(self, a, b):
        """printf-style formatting."""
        if a.lit is None:
            return Str(a, "%", self.to_str(b))
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts = []
        import re
        pos = 0
        for m in re.finditer(r"%([0-9.]*)([sdrifge%])", a.lit):
            parts.append(a.lit[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                parts.append("%")
                continue
            if not args:
                self.py_raise("TypeError", "not enough arguments for format string")
            x = self.res(args.pop(0))
            t = self.to_str(x)
            if m.group(2) in "fge" or m.group(1) or m.group(2) == "r" and isinstance(x, Str):
                t = Str("%", m.group(1), m.group(2), t)
            parts.append(t)
        if args and not (len(args) == 1 and isinstance(b, Ref)):
            self.py_raise("TypeError", "not all arguments converted during string formatting")
        parts.append(a.lit[pos:])
        return Str(*parts)

    def to_str(self, v):
        v = self.res(v)
        if isinstance(v, Str):
            return v
        if isinstance(v, Num):
            c = v.p.const
            if c is not None and base_ty(v.ty) == "int":
                return Str(str(int(c)))
            if v.ty == "bool" and c is not None:
                return Str("True" if c else "False")
            return Str(v)
        if v is NONE:
            return Str("None")
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, ObjC):
                if c.cls.ctor == "exc":
                    a = c.attrs.get("args")
                    if isinstance(a, Tup) and len(a.items) == 1:
                        return self.to_str(a.items[0])
                    return Str("")
                for n in ("__str__", "__repr__"):
                    m, _ = c.cls.find(n)
                    if m is not None:
                        return self.res(self.call(m, [v], {}))
        return Str("<", self.type_of(v).name, ">")
