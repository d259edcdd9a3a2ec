"""Abstract values and heap contents."""
import terms as T
from terms import Poly, P, ZERO, ONE


class V:
    __slots__ = ("org",)


class Num(V):
    __slots__ = ("p", "ty")

    def __init__(self, p, ty="float"):
        self.p, self.ty = P(p), ty

    def __repr__(self):
        return T.show(self.p)


class NoneT(V):
    def __repr__(self):
        return "None"


class EllT(V):
    pass


class UndefT(V):
    def __repr__(self):
        return "<undefined>"


NONE = NoneT()
ELL = EllT()
UNDEF = UndefT()
NOTIMPL = EllT()


class Str(V):
    """Concatenation of literal strings, symbolic strings (Atom) and printed
    values (V)."""
    __slots__ = ("parts",)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, Str):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    @property
    def lit(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return repr("".join(p if isinstance(p, str) else "{" + str(p) + "}" for p in self.parts))


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class NT(V):
    """namedtuple instance"""
    __slots__ = ("cls", "items")

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)

    def __repr__(self):
        return f"{self.cls.name}({', '.join(map(repr, self.items))})"


class MapSeg:
    """n copies of the values with idx = 0..n-1."""
    __slots__ = ("n", "idx", "vals")

    def __init__(self, n, idx, vals):
        self.n, self.idx, self.vals = n, idx, tuple(vals)

    def __repr__(self):
        return f"*[{', '.join(map(repr, self.vals))} for i{self.idx.args[0]}<{T.show(self.n)}]"


class PreSeg:
    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok


class PrevV(V):
    """Loop carried value at the loop head."""
    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok


class Ref(V):
    __slots__ = ("cell", "sub")

    def __init__(self, cell, sub=()):
        self.cell, self.sub = cell, sub

    def same(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.sub == o.sub

    def __repr__(self):
        return f"<ref {self.cell}{'' if not self.sub else ' @' + ','.join(T.show(p) for _, p in self.sub)}>"


class ArrV(V):
    __slots__ = ("cell", "sub", "views")

    def __init__(self, cell, sub=(), views=()):
        self.cell, self.sub, self.views = cell, sub, views

    def __repr__(self):
        return f"<array {self.cell}{self.views or ''}>"


class Ite(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"({self.a!r} if {T.show(self.c)} else {self.b!r})"


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Cls(V):
    __slots__ = ("name", "bases", "ns", "mro", "module", "ctor", "node", "fields", "tnames", "cell")

    def __init__(self, name, bases=(), ns=None, module=None, ctor=None, node=None):
        self.cell = None
        self.name, self.bases, self.ns = name, tuple(bases), ns if ns is not None else {}
        self.module, self.ctor, self.node = module, ctor, node
        self.fields = None
        self.tnames = (name,)
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise T.Undecided("inconsistent class hierarchy")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, o):
        return o in self.mro

    def __repr__(self):
        return f"<class {self.name}>"


class Fn(V):
    __slots__ = ("node", "mod", "frame", "defaults", "kwdefaults", "name", "owner", "elementwise", "isgen", "locals", "sub")

    def __repr__(self):
        return f"<function {self.name}>"

    def copy(self):
        f = Fn()
        for s in Fn.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class BoundM(V):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Built(V):
    __slots__ = ("name", "f", "raw")

    def __init__(self, name, f, raw=False):
        self.name, self.f, self.raw = name, f, raw

    def __repr__(self):
        return f"<builtin {self.name}>"


class Mod(V):
    """Module: internal (frame cell) or external (name)."""
    __slots__ = ("name", "frame")

    def __init__(self, name, frame=None):
        self.name, self.frame = name, frame

    def __repr__(self):
        return f"<module {self.name}>"


class Ext(V):
    """Unmodelled external name or object."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<external {self.name}>"


class PropV(V):
    __slots__ = ("get", "set", "del_")

    def __init__(self, get=None, set=None, del_=None):
        self.get, self.set, self.del_ = get, set, del_


class StaticM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM(V):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class LruFn(V):
    __slots__ = ("fn", "cell")

    def __init__(self, fn, cell):
        self.fn, self.cell = fn, cell


class Partial(V):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class SuperV(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Top(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class MaskedV(V):
    """a[mask] as value: supports reductions."""
    __slots__ = ("arr", "mask")

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


# ---------------------------------------------------------------- heap contents

class ListC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class SetC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class DictC:
    __slots__ = ("items", "default")

    def __init__(self, items, default=None):
        self.items = tuple(items)      # ((key, value), ...)
        self.default = default


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class FrameC:
    __slots__ = ("vars",)

    def __init__(self, vars):
        self.vars = vars


class IterC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class IteC:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


TRUE = Num(ONE, "bool")
FALSE = Num(ZERO, "bool")


def boolv(p):
    if p is ONE:
        return TRUE
    if p is ZERO:
        return FALSE
    return Num(p, "bool")


def intv(v):
    return Num(P(v), "int")
