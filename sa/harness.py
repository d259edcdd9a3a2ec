"""Scenario runner: evaluates the driver functions of specs/ over the symbolic
domain and collects obligations."""
import ast
import os
import sys
import time
import traceback
import warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, Undecided, mk
import arrays as A
from arrays import ArrC, ShapeError, IndexErr
from values import *
from core import Dead, NeedFork
import interp
import nplib

HERE = os.path.dirname(os.path.abspath(__file__))


class Ob:
    """One obligation."""
    __slots__ = ("label", "status", "got", "exp", "detail", "entry", "site", "scenario", "mode")

    def __init__(self, label, status, got="", exp="", detail="", entry=None, site=None):
        self.label, self.status, self.got, self.exp, self.detail, self.entry, self.site = label, status, got, exp, detail, entry, site
        self.scenario = self.mode = ""


def short(x, n=int(os.environ.get("SA_LONG", 300))):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + " ..."


class Runner:
    def __init__(self, repo, seed=1, package="templatefitter"):
        self.repo, self.seed = repo, seed
        self.package = package
        self.specs = os.path.join(HERE, "specs")
        self.ip = interp.Interp([repo, self.specs], os.path.join(HERE, "stubs"), package)
        self.ip.budget = 400000
        self.mode = "sym"
        self.obs = []
        self.install()
        self.calls = {}
        orig = self.ip.call_fn
        ip = self.ip

        def call_fn(f, args, kw):
            if ip.stack and not f.elementwise:
                fc = ip.file_of(ip.stack[-1][2])
                if fc.startswith("specs/") or not fc.startswith(package):
                    me = ip.file_of(f.mod)
                    if me.startswith(package):
                        ip.entry = (f.name, me, f.node.lineno)
            return orig(f, args, kw)
        ip.entry = None
        ip.call_fn = call_fn
        self.snap0 = None

    # ------------------------------------------------------------ intrinsics
    def install(self):
        ip = self.ip
        V_ = ip.extvals

        def reg(name):
            def deco(f):
                V_["sa." + name] = Built("sa." + name, f)
                return f
            return deco

        def bnd(ip, x):
            if x is None or ip.res(x) is NONE:
                return None
            return ip.num(x).const

        def low(ip, x, zg):
            """Lower bound; positive quantities stay away from zero (see DESIGN.md)."""
            b = bnd(ip, x)
            return T.Fr(1, 10 ** 60) if b == 0 and not zg else b

        @reg("size")
        def size(ip, name, conc, lo=None):
            n = ip.res(name).lit
            if self.mode == "sym":
                T.declare(n, 2 if lo is None else int(bnd(ip, lo)), None, integer=True)
                q = T.sym(n)
                for o in self.sizes:
                    if o is not q and (o, q) not in T.PRODUCT_SIZES and (q, o) not in T.PRODUCT_SIZES:
                        T.PRODUCT_SIZES.append((o, q))
                self.sizes.append(q)
                return Num(q, "int")
            return Num(ip.num(conc), "int")

        @reg("real")
        def real(ip, name, lo=None, hi=None, zg=FALSE):
            n = ip.res(name).lit
            T.declare(n, low(ip, lo, ip.res(zg) is TRUE), bnd(ip, hi), zg=ip.res(zg) is TRUE)
            return Num(T.sym(n), "float")

        @reg("integer")
        def integer(ip, name, lo=None, hi=None):
            n = ip.res(name).lit
            T.declare(n, bnd(ip, lo), bnd(ip, hi), integer=True)
            return Num(T.sym(n), "int")

        @reg("flag")
        def flag(ip, name):
            return Num(T.bsym(ip.res(name).lit), "bool")

        @reg("string")
        def string(ip, name):
            return Str(mk("symstr", ip.res(name).lit))

        def arr_content(ip, name, shape, lo, hi, zg, integer_):
            n = ip.res(name).lit
            T.declare(n, bnd(ip, lo) if integer_ else low(ip, lo, zg), bnd(ip, hi), integer=integer_, zg=zg)
            return A.build(shape, lambda *i: atom(mk("elem", n, *i)), "int" if integer_ else "float")

        @reg("arr")
        def arr(ip, name, *shape, lo=None, hi=None, zg=FALSE):
            return ip.new_arr(arr_content(ip, name, [ip.num(s) for s in shape], lo, hi, ip.res(zg) is TRUE, False))

        @reg("iarr")
        def iarr(ip, name, *shape, lo=None, hi=None, zg=FALSE):
            return ip.new_arr(arr_content(ip, name, [ip.num(s) for s in shape], lo, hi, ip.res(zg) is TRUE, True))

        @reg("symmetric")
        def symmetric(ip, name, n):
            """Symmetric matrix with positive diagonal."""
            nm = ip.res(name).lit
            T.declare(nm, None, None)
            T.declare(nm + "_d", T.Fr(1, 10 ** 60), None)
            N = ip.num(n)
            if N.const is not None:
                k = int(N.const)

                def f(i, j):
                    a, b = int(i.const), int(j.const)
                    if a == b:
                        return atom(mk("elem", nm + "_d", T.num(a)))
                    return atom(mk("elem", nm, T.num(min(a, b)), T.num(max(a, b))))
                return ip.new_arr(A.build([N, N], f))
            return ip.new_arr(A.build([N, N], lambda i, j: T.ite(T.eq(i, j), atom(mk("elem", nm + "_d", i)),
                                                                 add(atom(mk("elem", nm, i, j)), atom(mk("elem", nm, j, i))))))

        @reg("edges")
        def edges(ip, name, nbins):
            nm = ip.res(name).lit
            N = ip.num(nbins)
            if N.const is not None:
                T.declare(nm + "_w", T.Fr(1, 10 ** 60), None)
                T.declare(nm + "_0")
                acc = T.sym(nm + "_0")
                vals = [acc]
                for k in range(int(N.const)):
                    acc = add(acc, atom(mk("elem", nm + "_w", T.num(k))))
                    vals.append(acc)
                return ip.new_arr(A.build([add(N, ONE)], lambda i: vals[int(i.const)]))
            T.declare(nm)
            return ip.new_arr(A.build([add(N, ONE)], lambda i: atom(mk("elem", nm, i))))

        @reg("assume")
        def assume(ip, c):
            ip.facts = mul(ip.facts, ip.truth(c))
            return NONE

        @reg("check")
        def check(ip, label, got, exp):
            lab = ip.to_str(label)
            self.check(lab.lit or repr(lab), got, exp)
            return NONE

        @reg("check_true")
        def check_true(ip, label, c):
            lab = ip.to_str(label)
            self.cond(lab.lit or repr(lab), ip.truth(c))
            return NONE

        @reg("check_is")
        def check_is(ip, label, a, b):
            self.cond(ip.to_str(label).lit, ip.identical(a, b))
            return NONE

        @reg("same")
        def same(ip, a, b):
            """Are two values equal on every input? (decided, never symbolic)"""
            rs = {r[0] for r in self.cmp(a, b, ONE)}
            if "different" in rs:
                return FALSE
            if "unknown" in rs:
                raise Undecided("whether two values are the same")
            return TRUE

        @reg("is_symbolic")
        def is_symbolic(ip):
            return TRUE if self.mode == "sym" else FALSE

        @reg("known")
        def known(ip, v):
            """Is a number, or are all entries of an array, the same on every input?"""
            v = ip.res(v)
            if isinstance(v, Num):
                return boolv(ONE if v.p.const is not None else ZERO)
            a = ip.as_arr(v)
            return boolv(ONE if all(s is ONE for x in a.axes for s in x) and all(p.const is not None for p in a.blocks.values()) else ZERO)

        @reg("snapshot")
        def snapshot(ip, v):
            """Deep frozen copy of a value (content at this point)."""
            import pylib
            return pylib.deep(ip, v, {})

        @reg("draw_mean")
        def draw_mean(ip, v):
            a = ip.as_arr(v)

            def one(q):
                if q is ZERO:
                    return ZERO
                if T.has_ind(q):
                    r = T.shannon(q, one)
                    if r is not None:
                        return r
                if len(q.t) == 1 and len(q.t[0][0]) == 1 and q.t[0][1] == 1:
                    (x, e), = q.t[0][0]
                    if e == 1 and x.kind == "fn" and x.args[0] == "pois":
                        if x.args[2].const == -1:
                            return T.fn("draw from a fixed generator", x.args[1])
                        return x.args[1]
                return T.fn("not a poisson draw", q)
            return ip.result(A.fmap(one, a, "float"))

        @reg("selection")
        def selection(ip, *vs):
            """(mask, complete arrays) of arrays selected by the same mask, None if none of them is a selection."""
            vs = [ip.res(v) for v in vs]
            ms = [v.mask for v in vs if isinstance(v, MaskedV)]
            if not ms:
                return NONE
            if any(m.key() is not ms[0].key() for m in ms) or any(isinstance(v, ArrV) for v in vs):
                raise Undecided("arrays selected differently")
            return Tup([ip.new_arr(ms[0])] + [v.arr if isinstance(v, MaskedV) else v for v in vs])

        @reg("draw_ids")
        def draw_ids(ip, v):
            """Draw identity of every element (distinct identities = independent draws)."""
            a = ip.as_arr(v)

            def one(q):
                for x, e in (q.t[0][0] if q.t else ()):
                    if x.kind == "fn" and x.args[0] == "pois":
                        return T.fn("drawid", *x.args[2:])
                return ZERO
            return ip.result(A.fmap(one, a, "float"))

        @reg("drawn")
        def drawn(ip):
            """Number of random numbers drawn so far."""
            if ip.drawn is None:
                raise Undecided("number of random numbers drawn in a summarised loop")
            return Num(ip.drawn, "int")

        @reg("undrawn")
        def undrawn(ip, v):
            """The value with every Poisson draw replaced by one that depends on its mean only."""
            a = ip.as_arr(v)

            def one(q):
                mp = {x: ZERO for x in q.leaves if x.kind == "sym" and str(x.args[0]).startswith("§draw")}
                return T.subst(q, mp)
            return ip.result(A.fmap(one, a, "float"))

        @reg("opaque")
        def opaque(ip, name, *args):
            """Unknown scalar function of the given values."""
            ks = []
            for a in args:
                a = ip.res(a)
                if isinstance(a, Num):
                    ks.append(a.p)
                elif isinstance(a, Str):
                    ks.append(a.lit or repr(a))
                else:
                    ks.append(ip.as_arr(a).key())
            return Num(T.fn(ip.res(name).lit, *ks), "npfloat")

        @reg("limit_key")
        def limit_key(ip, b):
            """A scalar standing for a parameter limit."""
            if ip.res(b) is NONE:
                return Num(T.fn("nolimit"), "float")
            xs = ip.items(ip.res(b))
            if len(xs) != 2:
                raise Undecided("limit of a parameter")
            ks = ["None" if ip.res(x) is NONE else ip.num(x) for x in xs]
            if ks[0] == "None" and ks[1] == "None":
                return Num(T.fn("nolimit"), "float")
            return Num(T.fn("limit", *ks), "float")

        @reg("num_or_zero")
        def num_or_zero(ip, b):
            return Num(ZERO, "int") if ip.res(b) is NONE else Num(ip.num(b), "float")

        @reg("opaque_flag")
        def opaque_flag(ip, name, *args):
            ks = []
            for a in args:
                a = ip.res(a)
                ks.append(a.p if isinstance(a, Num) else ip.as_arr(a).key())
            return Num(T.bsym(ip.res(name).lit, *ks), "bool")

        @reg("unordered")
        def unordered(ip, seq, i):
            """Element i of an unknown reordering of a sequence."""
            return Num(T.fn("some_order", *([ip.num(x) for x in ip.items(seq)] + [ip.num(i)])), "float")

        @reg("opaque_arr")
        def opaque_arr(ip, name, shape, *args):
            ks = []
            for a in args:
                a = ip.res(a)
                if isinstance(a, Num):
                    ks.append(a.p)
                elif isinstance(a, Str):
                    ks.append(a.lit or repr(a))
                elif a is NONE:
                    ks.append("None")
                else:
                    ks.append(ip.as_arr(a).key())
            sh = nplib.shape_of(ip, shape)
            nm = ip.res(name).lit
            return ip.new_arr(A.build(sh, lambda *i: T.fn(nm, *(ks + list(i)))))

        @reg("undecided")
        def undecided(ip, why):
            raise Undecided(ip.res(why).lit)

        @reg("counter")
        def counter(ip, name):
            k = ip.res(name).lit
            ip.counters[k] = ip.counters.get(k, 0) + 1
            return intv(ip.counters[k])

        @reg("global_list")
        def global_list(ip, name):
            """A list that lives outside of all frames."""
            k = ip.res(name).lit
            c = ip.cells.get(k)
            if c is None or c not in ip.state:
                c = ip.cells[k] = ip.new("list", ListC(()))
                ip.info[c].fam = ()
            return Ref(c)

        @reg("public")
        def public(ip, obj, name):
            """obj.name, or a missing anchor (not a violation)."""
            v = ip.getattr_opt(obj, ip.res(name).lit)
            if v is None:
                raise Undecided("missing anchor " + ip.res(name).lit)
            return v

        @reg("shares")
        def shares(ip, a, b):
            """Do two values share mutable storage?"""
            x, y = set(), set()
            self.reach(a, x)
            self.reach(b, y)
            return boolv(ONE if x & y else ZERO)

        @reg("reaches")
        def reaches(ip, a, b):
            """Is the array/list b (itself) reachable from a?"""
            x = set()
            self.reach(a, x)
            b = ip.res(b)
            return boolv(ONE if b.cell in x else ZERO)
        ip.counters = {}

    def reach(self, v, seen, depth=0):
        ip = self.ip
        if isinstance(v, Ite):
            self.reach(v.a, seen)
            self.reach(v.b, seen)
            return
        if isinstance(v, (Tup, NT)):
            for x in v.items:
                self.reach_item(x, seen)
        elif isinstance(v, (Ref, ArrV)):
            if v.cell in seen:
                return
            c = ip.state.get(v.cell)
            if isinstance(c, FrameC):
                return
            seen.add(v.cell)
            self.reach_content(c, seen)
        elif isinstance(v, BoundM):
            self.reach(v.self_, seen)
        elif isinstance(v, Partial):
            for x in v.args:
                self.reach(x, seen)

    def reach_item(self, x, seen):
        if isinstance(x, MapSeg):
            for y in x.vals:
                self.reach(y, seen)
        elif isinstance(x, V):
            self.reach(x, seen)

    def reach_content(self, c, seen):
        if isinstance(c, IteC):
            self.reach_content(c.a, seen)
            self.reach_content(c.b, seen)
        elif isinstance(c, (ListC, SetC, IterC)):
            for x in c.items:
                self.reach_item(x, seen)
        elif isinstance(c, DictC):
            for k, v in c.items:
                self.reach(v, seen)
        elif isinstance(c, ObjC):
            for v in c.attrs.values():
                self.reach(v, seen)

    # ------------------------------------------------------------ obligations
    def record(self, label, status, got="", exp="", detail="", site=None):
        o = Ob(label, status, short(got), short(exp), short(detail), self.ip.entry, site)
        self.obs.append(o)

    def cond(self, label, c, detail=""):
        ip = self.ip
        c = ip.simp(c)
        if c is ONE:
            return self.record(label, "equal")
        r, w = T.compare(c, ONE, gate=ip.path(), seed=self.seed)
        self.record(label, r, "condition " + T.show(c) + " is false", "condition holds", detail)

    def check(self, label, got, exp):
        res = self.cmp(got, exp, ONE)
        worst = "equal"
        info = ("", "", "")
        for st, g, e, d in res:
            if st == "different":
                worst, info = st, (g, e, d)
                break
            if st == "unknown":
                worst, info = st, (g, e, d)
        site = None
        try:
            v = self.ip.res(got) if not isinstance(got, Ite) else got
            if isinstance(v, (Ref, ArrV)):
                site = self.ip.info[v.cell].wsite
        except (Undecided, NeedFork):
            pass
        self.record(label, worst, *info, site=site)

    def cmp(self, a, b, g):
        """[(status, got, expected, detail)] of a == b under the extra gate g."""
        ip = self.ip
        path = mul(ip.path(), g)
        if path is ZERO:
            return [("equal", "", "", "")]
        for v, o, sw in ((a, b, False), (b, a, True)):
            if isinstance(v, Ite):
                c = v.c
                out = []
                for gg, x in ((mul(g, c), v.a), (mul(g, T.c_not(c)), v.b)):
                    out += self.cmp(o, x, gg) if sw else self.cmp(x, o, gg)
                return out
        if a is UNDEF or b is UNDEF or isinstance(a, Top) or isinstance(b, Top):
            return [("equal", "", "", "")] if a is b else [("unknown", repr(a), repr(b), "undefined")]
        if isinstance(a, PrevV) or isinstance(b, PrevV):
            return [("unknown", "", "", "loop carried")]
        if isinstance(a, Num) and isinstance(b, Num):
            r, w = T.compare(a.p, b.p, gate=path, seed=self.seed)
            return [(r, T.show(a.p), T.show(b.p), str(w))]
        if isinstance(a, MaskedV) or isinstance(b, MaskedV):
            return [("unknown", "", "", "selection")]
        if a is NONE or b is NONE:
            return [("equal" if a is b else self.feas(path), repr(a), repr(b), "")]
        if isinstance(a, Str) and isinstance(b, Str):
            e = ip.str_eq(a, b)
            r, w = T.compare(e, ONE, gate=path, seed=self.seed)
            return [(r, repr(a), repr(b), "")]
        if isinstance(a, Str) != isinstance(b, Str):
            return [(self.feas(path), repr(a), repr(b), "type")]
        arr = isinstance(a, ArrV) or isinstance(b, ArrV)
        if not arr and isinstance(a, Num) != isinstance(b, Num):
            return [(self.feas(path), repr(a), repr(b), "type")]
        if arr:
            if isinstance(a, Ref) and isinstance(ip.content(a), (ObjC, DictC)) or isinstance(b, Ref) and isinstance(ip.content(b), (ObjC, DictC)):
                return [(self.feas(path), repr(a), repr(b), "type")]
            try:
                x, y = ip.as_arr(a), ip.as_arr(b)
            except (ShapeError, IndexErr) as ex:
                return [(self.feas(path), repr(a), repr(b), str(ex))]
            if x.ndim != y.ndim:
                # one-element against scalar stays a difference of dimension
                return [(self.feas(path), f"{x.ndim} dimensions", f"{y.ndim} dimensions", "")]
            r, w = A.compare_arr(x, y, gate=path, seed=self.seed)
            if isinstance(w, tuple):
                return [(r, T.show(w[0]), T.show(w[1]), str(w[2]))]
            return [(r, "", "", str(w))]
        if isinstance(a, (Tup, NT)) or isinstance(a, Ref) and isinstance(ip.content(a), (ListC,)):
            if not (isinstance(b, (Tup, NT)) or isinstance(b, Ref) and isinstance(ip.content(b), ListC)):
                return [(self.feas(path), repr(a), repr(b), "type")]
            return self.cmp_items(ip.items(a), ip.items(b), g)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.cell == b.cell and a.sub == b.sub:
                return [("equal", "", "", "")]
            ca, cb = ip.content(a), ip.content(b)
            if isinstance(ca, DictC) and isinstance(cb, DictC):
                if len(ca.items) != len(cb.items):
                    return [(self.feas(path), f"{len(ca.items)} entries", f"{len(cb.items)} entries", "")]
                out = []
                for k, v in cb.items:
                    e = ip.dict_find(ca, k)
                    if e is None:
                        out.append((self.feas(path), "key missing", repr(k), ""))
                    else:
                        out += self.cmp(e[1], v, g)
                return out or [("equal", "", "", "")]
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                if len(ca.items) != len(cb.items):
                    return [(self.feas(path), f"{len(ca.items)} entries", f"{len(cb.items)} entries", "")]
                c = ONE
                for x in cb.items:
                    c = mul(c, ip.contains_items(ca.items, x))
                r, w = T.compare(c, ONE, gate=path, seed=self.seed)
                return [(r, "", "", "")]
            if isinstance(ca, ObjC) and isinstance(cb, ObjC):
                if ca.cls is not cb.cls:
                    return [(self.feas(path), ca.cls.name, cb.cls.name, "class")]
                out = []
                for k in sorted(set(ca.attrs) | set(cb.attrs)):
                    out += self.cmp(ca.attrs.get(k, UNDEF), cb.attrs.get(k, UNDEF), g)
                return out or [("equal", "", "", "")]
            if type(ca) is not type(cb):
                return [(self.feas(path), repr(a), repr(b), "type")]
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return self.cmp_items(ip.items(a), ip.items(b), g)
        if ip.same(a, b):
            return [("equal", "", "", "")]
        if isinstance(a, (Cls, Fn, Built)) and isinstance(b, (Cls, Fn, Built)):
            return [(self.feas(path), repr(a), repr(b), "")]
        return [("unknown", repr(a), repr(b), "values of different kinds")]

    def cmp_items(self, xs, ys, g):
        ip = self.ip
        path = mul(ip.path(), g)
        if any(isinstance(x, (MapSeg, PreSeg)) for x in xs + ys):
            out = []
            if len(xs) == len(ys) and all(isinstance(x, MapSeg) == isinstance(y, MapSeg) for x, y in zip(xs, ys)) and all(
                    not isinstance(x, MapSeg) or x.n is y.n and len(x.vals) == len(y.vals) for x, y in zip(xs, ys)):
                for x, y in zip(xs, ys):
                    if isinstance(x, MapSeg):
                        for u, w in zip(x.vals, y.vals):
                            out += self.cmp(u, ip.sub_val(w, {y.idx: atom(x.idx)}), g)
                    else:
                        out += self.cmp(x, y, g)
                return out
            nx, ny = ip.seg_len(xs), ip.seg_len(ys)
            if nx is not ny:
                r, w = T.compare(nx, ny, gate=path, seed=self.seed)
                if r == "different":
                    return [(r, "length " + T.show(nx), "length " + T.show(ny), "")]
                return [("unknown", "", "", "lengths")]
            try:
                x, y = ip.as_arr(Tup(xs)), ip.as_arr(Tup(ys))
            except (ShapeError, Undecided):
                return [("unknown", "", "", "sequences of different segmentation")]
            if x.dtype == "obj" or y.dtype == "obj":
                return [("unknown", "", "", "sequences of different segmentation")]
            r, w = A.compare_arr(x, y, gate=path, seed=self.seed)
            return [(r, "", "", str(w))]
        if len(xs) != len(ys):
            return [(self.feas(path), f"{len(xs)} elements", f"{len(ys)} elements", "")]
        out = []
        for x, y in zip(xs, ys):
            out += self.cmp(x, y, g)
        return out or [("equal", "", "", "")]

    def feas(self, path):
        """'different' if the path condition is satisfiable (shown by example)."""
        if path is ONE:
            return "different"
        r, w = T.compare(path, ZERO, seed=self.seed)
        return "different" if r == "different" else "unknown"

    # ------------------------------------------------------------ running
    def load(self, module):
        """Interpret a spec module (its imports load the package)."""
        ip = self.ip
        f = Fn()
        cell = ip.new("frame", FrameC({}))
        ip.frame_kind[cell] = "module"
        ip.frame_mod[cell] = ("<driver>", "<driver>", False)
        ip.parents[cell] = None
        f.node, f.mod, f.frame, f.name, f.owner, f.elementwise = None, cell, cell, "<driver>", None, False
        f.defaults, f.kwdefaults, f.isgen, f.locals, f.sub = (), {}, False, None, ()
        ip.stack = [(f, ("<driver>", 0), cell)]
        ip.gate = ip.outer = ip.facts = ONE
        ip.raises = []
        ip.flows = {"return": [], "break": [], "continue": []}
        m = ip.import_module(module)
        if ip.raises:
            r = ip.raises[0]
            raise Undecided("import raises " + self.exc_text(r))
        return m

    def exc_text(self, r):
        e = r[1]
        c = r[2].get(e.cell) if isinstance(e, Ref) else None
        if isinstance(c, ObjC):
            a = c.attrs.get("args")
            return f"{c.cls.name}: {a!r} at {r[3][0]}:{r[3][1]}"
        return "exception at %s:%s" % r[3]

    def run(self, module, func, mode):
        """Run one scenario; returns (obligations, error)."""
        ip = self.ip
        self.mode = mode
        self.obs = []
        self.sizes = []
        del T.PRODUCT_SIZES[:]
        m = self.modules[module]
        st = dict(self.snap)
        ip.state = st
        ip.gate = ip.outer = ip.facts = ONE
        ip.raises = []
        ip.flows = {"return": [], "break": [], "continue": []}
        ip.stack = ip.stack[:1]
        ip.idxs = []
        ip.steps = 0
        ip.cut = None
        ip.draws = 0
        ip.drawn = ZERO
        ip.draw_log = []
        ip.counters = {}
        ip.cells = {}
        ip.analysed = {}
        ip.entry = None
        ip.cur = ("<driver>", 0)
        err = None
        t0 = time.time()
        try:
            fn = ip.get_vars(m.frame)[func]
            for attempt in range(1):
                try:
                    ip.call(fn, [], {})
                except Dead:
                    pass
        except Undecided as e:
            err = "undecided: " + str(e) + f" (at {ip.cur[0]}:{ip.cur[1]})"
        except NeedFork as e:
            err = "undecided: open condition outside of a statement"
        except RecursionError:
            err = "undecided: recursion in the analysis"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            err = f"internal: {type(e).__name__}: {e} in {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno} (at {ip.cur[0]}:{ip.cur[1]})"
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        if err is None and ip.cut:
            err = "undecided: while loop with an open condition (at %s:%s)" % ip.cut
        # obligations recorded several times (forks re-run statements) collapse
        if err is None:
            for r in ip.raises:
                self.escape(r)
        for o in self.obs:
            o.scenario, o.mode = func, mode
        return self.obs, err, time.time() - t0, dict(ip.analysed)

    def escape(self, r):
        g = r[0]
        p = mul(self.ip.facts, g)
        if p is ZERO:
            return
        st = self.feas(p)
        o = Ob("no unexpected exception", st, self.exc_text(r), "returns normally", "under " + short(T.show(p), 160),
               self.ip.entry, r[3])
        o.detail += " via " + " <- ".join(reversed(r[4][-6:]))
        self.obs.append(o)

    def prepare(self, modules):
        self.modules = {}
        for f in sorted(os.listdir(self.ip.stubs)):
            if f.startswith("more_") and f.endswith(".py"):
                self.ip.import_module(f[:-3])
        for m in modules:
            self.modules[m] = self.load(m)
        self.snap = dict(self.ip.state)
