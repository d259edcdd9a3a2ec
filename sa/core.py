"""Abstract heap, joins, loop summaries (mixed into the interpreter)."""
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, subst, Undecided
import arrays as A
from arrays import ArrC
from values import *


class NeedFork(Exception):
    def __init__(self, a):
        self.atom = a


class Dead(Exception):
    """No execution continues from here (every path raised)."""


class CellInfo:
    __slots__ = ("kind", "fam", "site", "wsite")

    def __init__(self, kind, fam, site):
        self.kind, self.fam, self.site, self.wsite = kind, fam, site, site


class Heap:
    """State handling.  self.state: cell -> content (contents are immutable)."""

    def init_heap(self):
        self.state = {}
        self.info = {}
        self.ncell = 0
        self.gate = ONE
        self.outer = ONE
        self.facts = ONE
        self.raises = []
        self.flows = {"return": [], "break": [], "continue": []}
        self.idxs = []
        self.tok = 0
        self.cut = None

    # ------------------------------------------------------------ cells
    def new(self, kind, content):
        self.ncell += 1
        c = self.ncell
        self.info[c] = CellInfo(kind, tuple(self.idxs), self.site())
        self.state[c] = content
        return c

    def new_list(self, items):
        return Ref(self.new("list", ListC(items)))

    def new_dict(self, items, default=None):
        return Ref(self.new("dict", DictC(items, default)))

    def new_arr(self, a, org=None):
        v = ArrV(self.new("arr", a))
        return v

    def result(self, a):
        """Array content as a value: numpy scalar for 0-d results."""
        if a.ndim == 0:
            return Num(a.blocks[()], {"int": "npint", "bool": "npbool"}.get(a.dtype, "npfloat"))
        return self.new_arr(a)

    def content(self, ref):
        c = self.state.get(ref.cell)
        while isinstance(c, IteC):
            k = self.decide(c.c)
            c = c.a if k else c.b
        if c is None:
            raise Undecided("value from a discarded path")
        if ref.sub:
            c = self.sub_content(c, dict(ref.sub))
        return c

    def put(self, ref, content):
        if ref.sub:
            # identity substitution is fine
            if any(T.atom(i) is not p for i, p in ref.sub):
                raise Undecided("write to one element of an object family")
        fam = self.info[ref.cell].fam
        if fam and not ref.sub and any(i not in self.idxs for i in fam):
            raise Undecided("write to an object of a finished loop")
        self.state[ref.cell] = content
        self.info[ref.cell].wsite = self.site()

    # ------------------------------------------------------------ substitution
    def sub_val(self, v, mp):
        """Substitute index atoms in a value."""
        if isinstance(v, Num):
            q = subst(v.p, mp)
            if q is v.p:
                return v
            return Num(q, v.ty)
        if isinstance(v, (Ref, ArrV)):
            fam = self.info[v.cell].fam
            sub = dict(v.sub)
            for i in list(sub):
                sub[i] = subst(sub[i], mp)
            for i in fam:
                if i in mp and i not in sub:
                    sub[i] = mp[i]
            ns = tuple(sorted(sub.items(), key=lambda x: x[0].id))
            if isinstance(v, Ref):
                return v if ns == v.sub else Ref(v.cell, ns)
            views = tuple(self._sub_view(w, mp) for w in v.views)
            if ns == v.sub and views == v.views:
                return v
            return ArrV(v.cell, ns, views)
        if isinstance(v, Tup):
            return Tup(self.sub_items(v.items, mp))
        if isinstance(v, NT):
            return NT(v.cls, self.sub_items(v.items, mp))
        if isinstance(v, Str):
            if any(isinstance(p, V) for p in v.parts):
                return Str(*[self.sub_val(p, mp) if isinstance(p, V) else p for p in v.parts])
            return v
        if isinstance(v, Ite):
            return self.mk_ite(subst(v.c, mp), self.sub_val(v.a, mp), self.sub_val(v.b, mp))
        if isinstance(v, BoundM):
            return BoundM(self.sub_val(v.fn, mp), self.sub_val(v.self_, mp))
        if isinstance(v, Fn):
            f = v.copy()
            f.defaults = tuple(self.sub_val(x, mp) for x in v.defaults)
            f.kwdefaults = {k: self.sub_val(x, mp) for k, x in v.kwdefaults.items()}
            if v.frame is not None:
                r = self.sub_val(Ref(v.frame, v.sub), mp)
                f.sub = r.sub
            return f
        if isinstance(v, RangeV):
            return RangeV(self.sub_val(v.lo, mp), self.sub_val(v.hi, mp), self.sub_val(v.step, mp))
        if isinstance(v, SliceV):
            return SliceV(*[self.sub_val(x, mp) if isinstance(x, V) else x for x in (v.lo, v.hi, v.step)])
        if isinstance(v, Partial):
            return Partial(self.sub_val(v.fn, mp), [self.sub_val(x, mp) for x in v.args],
                           {k: self.sub_val(x, mp) for k, x in v.kw.items()})
        return v

    def _sub_view(self, w, mp):
        out = []
        for x in w:
            if isinstance(x, Poly):
                out.append(subst(x, mp))
            elif isinstance(x, tuple):
                out.append(self._sub_view(x, mp))
            else:
                out.append(x)
        return tuple(out)

    def sub_items(self, items, mp):
        out = []
        for x in items:
            if isinstance(x, MapSeg):
                n = subst(x.n, mp)
                idx = x.idx
                m2 = mp
                if n is not x.n:
                    idx = T.fresh_idx(n)
                    m2 = dict(mp)
                    m2[x.idx] = atom(idx)
                out.append(MapSeg(n, idx, [self.sub_val(v, m2) for v in x.vals]))
            elif isinstance(x, PreSeg):
                out.append(x)
            else:
                out.append(self.sub_val(x, mp))
        return out

    def sub_content(self, c, mp):
        if isinstance(c, ListC):
            return ListC(self.sub_items(c.items, mp))
        if isinstance(c, SetC):
            return SetC(self.sub_items(c.items, mp))
        if isinstance(c, IterC):
            return IterC(self.sub_items(c.items, mp))
        if isinstance(c, DictC):
            return DictC([(self.sub_val(k, mp), self.sub_val(v, mp)) for k, v in c.items], c.default)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.sub_val(v, mp) for k, v in c.attrs.items()})
        if isinstance(c, FrameC):
            return FrameC({k: self.sub_val(v, mp) for k, v in c.vars.items()})
        if isinstance(c, ArrC):
            axes = tuple(tuple(subst(s, mp) for s in ax) for ax in c.axes)
            blocks = {}
            for k, q in c.blocks.items():
                m2 = dict(mp)
                for d, s in enumerate(k):
                    o, n = c.axes[d][s], axes[d][s]
                    if o is not n:
                        m2[T.mk("ax", d, o)] = A.ax(d, n)
                blocks[k] = subst(q, m2)
            return ArrC(axes, blocks, c.dtype)
        if isinstance(c, IteC):
            return IteC(subst(c.c, mp), self.sub_content(c.a, mp), self.sub_content(c.b, mp))
        return c

    # ------------------------------------------------------------ arrays through views
    def arr(self, v):
        """Current content of an array value."""
        c = self.content(Ref(v.cell, v.sub))
        for w in v.views:
            c = self.apply_view(c, w)
        return c

    def apply_view(self, c, w):
        k = w[0]
        if k == "idx":
            return self.index_arr(c, w[1])
        if k == "reshape":
            return A.reshape(c, list(w[1]))
        if k == "T":
            return A.transpose(c, w[1])
        if k == "diag":
            return A.diag(c)
        raise Undecided("view " + k)

    def index_arr(self, c, specs):
        d = 0
        for s in specs:
            if s[0] == "i":
                c = A.elem_at(c, d, s[1])
            elif s[0] == "r":
                c = A.take_range(c, d, s[1], s[2])
                d += 1
            elif s[0] == "rev":
                c = A.reverse(c, d)
                d += 1
            elif s[0] == "all":
                d += 1
            elif s[0] == "new":
                c = A.newaxis(c, d)
                d += 1
        return c

    def write_arr(self, v, new):
        """Store new as the content of the (viewed) array v."""
        if self.info[v.cell].kind == "stepped":
            raise Undecided("write through a stepped view")
        chain = [self.content(Ref(v.cell, v.sub))]
        for w in v.views:
            chain.append(self.apply_view(chain[-1], w))
        for k in range(len(v.views) - 1, -1, -1):
            w = v.views[k]
            old = chain[k]
            if w[0] == "idx":
                conds = []
                for s in w[1]:
                    if s[0] in ("rev", "new"):
                        raise Undecided("write through a reversed view")
                    conds.append(s)
                while len(conds) < old.ndim:
                    conds.append(("all",))
                new = A.where_region(old, conds, new)
            elif w[0] == "reshape":
                new = A.reshape(new, list(old.shape))
            elif w[0] == "T":
                perm = w[1] or tuple(range(old.ndim - 1, -1, -1))
                inv = tuple(perm.index(i) for i in range(len(perm)))
                new = A.transpose(new, inv)
            else:
                raise Undecided("write through a view")
        base = chain[0]
        self.put(Ref(v.cell, v.sub), ArrC(new.axes, new.blocks, base.dtype))

    # ------------------------------------------------------------ conditions
    def path(self):
        return mul(mul(self.facts, self.outer), self.gate)

    def simp(self, c):
        if c.const is not None:
            return c
        pg = self.path()
        if pg is ONE:
            return c
        if mul(pg, c) is ZERO:
            return ZERO
        if mul(pg, add(ONE, neg(c))) is ZERO:
            return ONE
        return c

    def decide(self, c):
        """True/False for a condition; forks the current statement if open."""
        c = self.simp(c)
        k = c.const
        if k is not None:
            return k != 0
        for a in T.ind_atoms(c):
            r = self.simp(atom(a))
            if r.const is None:
                raise NeedFork(a)
            c = T.cofactor(c, a, int(r.const))
            k = c.const
            if k is not None:
                return k != 0
        raise Undecided("condition cannot be split: " + T.show(c)[:80])

    def res(self, v):
        """Resolve a gated value (forks the statement if undecided)."""
        while isinstance(v, Ite):
            v = v.a if self.decide(v.c) else v.b
        if v is UNDEF:
            raise Undecided("possibly undefined value")
        if isinstance(v, Top):
            raise Undecided(v.why)
        if isinstance(v, PrevV):
            raise Undecided("loop carried value used")
        return v

    def mk_ite(self, c, a, b):
        return self.merge_val(c, a, b, None, {})

    # ------------------------------------------------------------ joins
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.p is b.p and a.ty == b.ty
        if isinstance(a, Ref):
            return a.cell == b.cell and a.sub == b.sub
        if isinstance(a, ArrV):
            return a.cell == b.cell and a.sub == b.sub and a.views == b.views
        if isinstance(a, Str):
            if len(a.parts) != len(b.parts):
                return False
            return all((p == q if isinstance(p, str) or isinstance(q, str) or not isinstance(p, V) else self.same(p, q))
                       for p, q in zip(a.parts, b.parts))
        if isinstance(a, (Tup,)):
            return len(a.items) == len(b.items) and all(self.same_item(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, NT):
            return a.cls is b.cls and all(self.same_item(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, BoundM):
            return self.same(a.fn, b.fn) and self.same(a.self_, b.self_)
        if isinstance(a, Fn):
            return a.node is b.node and a.frame == b.frame and a.sub == b.sub and \
                len(a.defaults) == len(b.defaults) and all(self.same(x, y) for x, y in zip(a.defaults, b.defaults))
        if isinstance(a, Built):
            return a.f is b.f
        if isinstance(a, (Ext,)):
            return a.name == b.name
        if isinstance(a, Mod):
            return a.name == b.name
        if isinstance(a, Ite):
            return a.c is b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, PropV):
            return a.get is b.get and a.set is b.set
        if isinstance(a, PrevV):
            return a.tok is b.tok
        if isinstance(a, RangeV):
            return self.same(a.lo, b.lo) and self.same(a.hi, b.hi) and self.same(a.step, b.step)
        return False

    def same_item(self, x, y):
        if x is y:
            return True
        if isinstance(x, MapSeg) and isinstance(y, MapSeg):
            if x.n is not y.n or len(x.vals) != len(y.vals):
                return False
            mp = {y.idx: atom(x.idx)}
            return all(self.same(a, self.sub_val(b, mp)) for a, b in zip(x.vals, y.vals))
        if isinstance(x, PreSeg) and isinstance(y, PreSeg):
            return x.tok is y.tok
        if isinstance(x, (MapSeg, PreSeg)) or isinstance(y, (MapSeg, PreSeg)):
            return False
        return self.same(x, y)

    def merge_val(self, c, a, b, st, memo):
        """Value a if c else b. st=(sa, sb, base) states or None."""
        if c is ONE:
            return a
        if c is ZERO:
            return b
        if self.same(a, b):
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            ty = a.ty if a.ty == b.ty else self.join_ty(a.ty, b.ty)
            if ty is not None:
                return Num(T.ite(c, a.p, b.p), ty)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and \
                not any(isinstance(x, (MapSeg, PreSeg)) for x in a.items + b.items):
            return Tup([self.merge_val(c, x, y, st, memo) for x, y in zip(a.items, b.items)])
        if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
            return NT(a.cls, [self.merge_val(c, x, y, st, memo) for x, y in zip(a.items, b.items)])
        if st is not None and type(a) is type(b) and isinstance(a, (Ref, ArrV)) and not a.sub and not b.sub:
            sa, sb, base = st
            if a.cell not in base and b.cell not in base and a.cell in sa and b.cell in sb and \
                    (not isinstance(a, ArrV) or a.views == b.views):
                k = (a.cell, b.cell)
                if k in memo:
                    cc = memo[k]
                    if cc is not None:
                        return Ref(cc) if isinstance(a, Ref) else ArrV(cc, (), a.views)
                ca, cb = sa[a.cell], sb[b.cell]
                if self.mergeable(ca, cb) and self.info[a.cell].fam == self.info[b.cell].fam:
                    self.ncell += 1
                    cc = self.ncell
                    self.info[cc] = CellInfo(self.info[a.cell].kind, self.info[a.cell].fam, self.info[a.cell].site)
                    memo[k] = cc
                    m = self.merge_content(c, ca, cb, st, memo)
                    memo.setdefault("new", {})[cc] = m
                    return Ref(cc) if isinstance(a, Ref) else ArrV(cc, (), a.views)
        # nested gates on the same condition
        if isinstance(a, Ite) and a.c is c:
            a = a.a
        if isinstance(b, Ite) and b.c is c:
            b = b.b
        if self.same(a, b):
            return a
        return Ite(c, a, b)

    _TY = {"bool": 0, "int": 1, "float": 2}

    def join_ty(self, a, b):
        np_ = a.startswith("np") or b.startswith("np")
        if np_ and not (a.startswith("np") and b.startswith("np")):
            return None
        s = max(a.replace("np", ""), b.replace("np", ""), key=lambda x: self._TY.get(x, 2))
        if a.replace("np", "") != b.replace("np", "") and ("bool" in (a, b) or True):
            # int/float mixtures keep their kinds apart only for type tests
            return None
        return a

    def mergeable(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, ArrC):
            return a.shape == b.shape and a.dtype == b.dtype
        if isinstance(a, (ListC,)):
            return len(a.items) == len(b.items)
        if isinstance(a, DictC):
            return len(a.items) == len(b.items) and all(self.same(x[0], y[0]) for x, y in zip(a.items, b.items))
        if isinstance(a, ObjC):
            return a.cls is b.cls
        return isinstance(a, FrameC)

    def merge_content(self, c, a, b, st, memo):
        if a is b:
            return a
        if type(a) is type(b):
            if isinstance(a, ArrC) and a.ndim == b.ndim and a.shape == b.shape and a.dtype == b.dtype:
                try:
                    for d in range(a.ndim):
                        a, b = A.align2(a, d, b, d)
                    return ArrC(a.axes, {k: v if v is b.blocks[k] else T.ite(c, v, b.blocks[k])
                                         for k, v in a.blocks.items()}, a.dtype)
                except (Undecided, A.ShapeError):
                    return IteC(c, a, b)
            if isinstance(a, ListC) and len(a.items) == len(b.items):
                out = []
                for x, y in zip(a.items, b.items):
                    if self.same_item(x, y):
                        out.append(x)
                    elif isinstance(x, MapSeg) and isinstance(y, MapSeg) and x.n is y.n and len(x.vals) == len(y.vals):
                        mp = {y.idx: atom(x.idx)}
                        out.append(MapSeg(x.n, x.idx, [self.merge_val(c, u, self.sub_val(w, mp), None, memo)
                                                       for u, w in zip(x.vals, y.vals)]))
                    elif isinstance(x, (MapSeg, PreSeg)) or isinstance(y, (MapSeg, PreSeg)):
                        return IteC(c, a, b)
                    else:
                        out.append(self.merge_val(c, x, y, st, memo))
                return ListC(out)
            if isinstance(a, DictC):
                ka = [k for k, _ in a.items]
                kb = [k for k, _ in b.items]
                if len(ka) == len(kb) and all(self.same(x, y) for x, y in zip(ka, kb)):
                    return DictC([(k, self.merge_val(c, x, y, st, memo)) for (k, x), (_, y) in zip(a.items, b.items)], a.default)
                return IteC(c, a, b)
            if isinstance(a, ObjC) and a.cls is b.cls:
                ks = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
                return ObjC(a.cls, {k: self.merge_val(c, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF), st, memo) for k in ks})
            if isinstance(a, FrameC):
                ks = list(a.vars) + [k for k in b.vars if k not in a.vars]
                return FrameC({k: self.merge_val(c, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF), st, memo) for k in ks})
            if isinstance(a, (IterC, SetC)) and len(a.items) == len(b.items) and \
                    all(self.same_item(x, y) for x, y in zip(a.items, b.items)):
                return a
        return IteC(c, a, b)

    def merge_states(self, c, sa, sb, base, vals=()):
        """Join two states; vals: list of (va, vb) merged consistently."""
        if c is ONE:
            return sa, [x for x, _ in vals]
        if c is ZERO:
            return sb, [y for _, y in vals]
        memo = {}
        st = (sa, sb, base)
        out = dict(sb)
        for k, x in sa.items():
            y = sb.get(k)
            if y is None or x is y:
                out[k] = x
        for k, x in sa.items():
            y = sb.get(k)
            if y is not None and x is not y:
                out[k] = self.merge_content(c, x, y, st, memo)
        mv = [self.merge_val(c, x, y, st, memo) for x, y in vals]
        done = set()
        while True:
            todo = [k for k in memo.get("new", {}) if k not in done]
            if not todo:
                break
            for k in todo:
                out[k] = memo["new"][k]
                done.add(k)
        return out, mv

    def join(self, c, one, two, base, vals=None):
        """one/two: (gate, state). Sets gate/state, returns merged value."""
        (g1, s1), (g2, s2) = one, two
        if g1 is ZERO:
            self.gate, self.state = g2, s2
            return vals[1] if vals else None
        if g2 is ZERO:
            self.gate, self.state = g1, s1
            return vals[0] if vals else None
        self.state, mv = self.merge_states(c, s1, s2, base, [vals] if vals else [])
        self.gate = add(g1, g2)
        return mv[0] if mv else None

    def fork(self, a, thunk, snap):
        """Run thunk under a and not a, join."""
        base, g0 = snap
        A1 = atom(a)
        res = []
        for c in (A1, T.c_not(A1)):
            self.state = dict(base)
            self.gate = mul(g0, c)
            if mul(self.path(), ONE) is ZERO:
                self.gate = ZERO
                res.append((ZERO, self.state))
                continue
            try:
                thunk()
            except Dead:
                self.gate = ZERO
            res.append((self.gate, self.state))
        self.join(A1, res[0], res[1], base)

    # ------------------------------------------------------------ exceptions
    def do_raise(self, exc, cond=ONE, loc=None):
        """Raise exc under cond."""
        cond = self.simp(cond)
        if cond is ZERO:
            return
        self.raises.append((mul(self.gate, cond), exc, dict(self.state), loc or self.site(), tuple(self.stack_desc())))
        if cond is ONE:
            self.gate = ZERO
            raise Dead()
        self.gate = mul(self.gate, T.c_not(cond))
        if self.gate is ZERO:
            raise Dead()

    def py_raise(self, name, msg="", cond=ONE):
        self.do_raise(self.make_exc(name, msg), cond)
