"""Abstract interpreter for the analysed package: evaluates the syntax trees
over the symbolic domain.  Conditions become 0/1 polynomials; branches are
both evaluated and joined; nothing of the analysed package is executed."""
import ast
import builtins
import os
import sys
import types
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, Undecided
import arrays as A
from arrays import ArrC, ShapeError, IndexErr
from values import *
from core import Heap, NeedFork, Dead
from ops import Ops

EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "OSError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "FutureWarning": "Warning",
    "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException", "GeneratorExit": "BaseException",
}

MAXDEPTH = 120


def find_locals(node):
    """(assigned names, global names, nonlocal names, has nested function, is generator)"""
    loc, glo, nonl = set(), set(), set()
    flags = [False, False]

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)

    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            flags[0] = True
            for d in n.decorator_list:
                walk(d, False)
            return
        if isinstance(n, ast.Lambda) and not top:
            flags[0] = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope, except for walrus targets
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
                if isinstance(x, ast.Lambda):
                    flags[0] = True
            walk(n.generators[0].iter, False)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            flags[1] = True
        for c in ast.iter_child_nodes(n):
            walk(c, False)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s, False)
    if hasattr(node, "args"):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
    return loc - glo - nonl, glo, nonl, flags[0], flags[1]


class Interp(Heap, Ops):
    def __init__(self, roots, stubs, package):
        """roots: list of directories searched for source modules."""
        self.init_heap()
        self.cur = ("<start>", 0)
        self.stack = []
        self.roots, self.stubs, self.package = roots, stubs, package
        self.elem_depth = 0
        self.modules = {}
        self.parents = {}        # frame cell -> parent frame cell
        self.frame_kind = {}     # frame cell -> 'module' | 'fn' | 'class'
        self.frame_mod = {}
        self.comp_frames = set()
        self.abstract = set()
        self.analysed = {}       # (file, qualname) -> calls
        self.ncalls = 0
        self.budget = 4000000
        self.steps = 0
        self.lruc = 0
        self.cells = {}          # named global cells (event logs)
        self.locals_cache = {}
        self.types = {}
        self.builtins = {}
        self.extvals = {}
        self.extcalls = {}
        self.make_types()
        import pylib
        import nplib
        pylib.install(self)
        nplib.install(self)

    # ------------------------------------------------------------ bookkeeping
    def site(self):
        return self.cur

    def stack_desc(self):
        return [f"{f.name} ({l[0]}:{l[1]})" for f, l, _ in self.stack[-12:]]

    def make_types(self):
        t = self.types
        t["object"] = Cls("object")
        ob = t["object"]

        def c(n, *b):
            t[n] = Cls(n, b or (ob,))
        for n in ("type", "NoneType", "str", "list", "tuple", "dict", "set", "frozenset", "int", "float", "complex",
                  "function", "range", "slice", "module", "property", "iterator", "generic", "ndarray", "ABC",
                  "staticmethod", "classmethod", "bytes", "builtin"):
            c(n)
        c("OrderedDict", t["dict"])
        c("defaultdict", t["dict"])
        c("bool", t["int"])
        c("number", t["generic"])
        c("integer", t["number"])
        c("floating", t["number"])
        c("npint", t["integer"])
        c("npfloat", t["floating"], t["float"])
        c("npsingle", t["floating"])
        c("npbool", t["generic"])
        for n, b in EXC_TREE.items():
            t[n] = Cls(n, (t[b] if b else ob,))
            t[n].ctor = "exc"

    def make_exc(self, name, msg=""):
        return Ref(self.new("obj", ObjC(self.types[name], {"args": Tup([Str(msg)])})))

    def exc_cls(self, e):
        c = self.state.get(e.cell) if isinstance(e, Ref) else None
        return c.cls if isinstance(c, ObjC) else self.types["Exception"]

    def native(self, f, *a, **k):
        try:
            return f(*a, **k)
        except ShapeError as e:
            self.py_raise("ValueError", str(e))
        except IndexErr as e:
            self.py_raise("IndexError", str(e))

    # ------------------------------------------------------------ modules
    def find_source(self, name):
        rel = name.replace(".", "/")
        for r in self.roots:
            for p in (os.path.join(r, rel, "__init__.py"), os.path.join(r, rel + ".py")):
                if os.path.isfile(p):
                    return p
        p = os.path.join(self.stubs, name.replace(".", "_") + ".py")
        if os.path.isfile(p):
            return p
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if self.find_source(parent):
                self.import_module(parent)
                if name in self.modules:
                    return self.modules[name]
        p = self.find_source(name)
        if p is None:
            if name.split(".")[0] == self.package or name.startswith("."):
                self.py_raise("ModuleNotFoundError", f"No module named '{name}'")
            return Ext(name)
        src = open(p).read()
        tree = ast.parse(src)
        cell = self.new("frame", FrameC({"__name__": Str(name)}))
        m = Mod(name, cell)
        self.modules[name] = m
        self.frame_kind[cell] = "module"
        self.frame_mod[cell] = (name, os.path.relpath(p, os.path.commonpath([self.roots[0], p])) if any(
            p.startswith(r) for r in self.roots) else os.path.basename(p), p.endswith("__init__.py"))
        self.parents[cell] = None
        f = Fn()
        f.node, f.mod, f.frame, f.name, f.owner = None, cell, cell, f"<module {name}>", None
        f.defaults, f.kwdefaults, f.elementwise, f.isgen, f.locals, f.sub = (), {}, False, False, None, ()
        saved = self.enter()
        self.stack.append((f, self.cur, cell))
        try:
            self.exec_block(tree.body)
        except Dead:
            self.gate = ZERO
        finally:
            self.stack.pop()
            g = self.gate
            rs = self.leave(saved)
        self.raises += rs
        self.gate = mul(self.gate, g)
        if self.gate is ZERO:
            raise Dead()
        # attach to the parent package
        if "." in name:
            par, sub = name.rsplit(".", 1)
            if par in self.modules:
                self.set_var(self.modules[par].frame, sub, m)
        return m

    def enter(self):
        saved = (self.gate, self.outer, self.raises, self.flows)
        self.outer = mul(self.outer, self.gate)
        self.gate = ONE
        self.raises = []
        self.flows = {"return": [], "break": [], "continue": []}
        return saved

    def leave(self, saved):
        """Restore; returns this level's raises with absolute gates."""
        g0 = saved[0]
        rs = [(mul(g0, r[0]),) + r[1:] for r in self.raises]
        self.gate, self.outer, self.raises, self.flows = saved
        return rs

    # ------------------------------------------------------------ names
    def frame(self):
        return self.stack[-1][2]

    def get_vars(self, cell):
        c = self.state[cell]
        if isinstance(c, IteC):
            c = self.content(Ref(cell))
        return c.vars

    def set_var(self, cell, name, v):
        vs = dict(self.get_vars(cell))
        vs[name] = v
        self.state[cell] = FrameC(vs)

    def lookup(self, name):
        cell = self.frame()
        while cell is not None:
            vs = self.get_vars(cell)
            if name in vs and not (self.frame_kind.get(cell) == "skip"):
                v = vs[name]
                if isinstance(v, Ite):
                    v = self.lift_undef(v)
                if v is UNDEF:
                    self.py_raise("UnboundLocalError", f"local variable '{name}' referenced before assignment")
                return v
            if self.frame_kind.get(cell) == "fn":
                loc = self.frame_mod.get(cell)
                if loc and name in loc and name not in vs:
                    self.py_raise("UnboundLocalError", f"local variable '{name}' referenced before assignment")
            cell = self.parents.get(cell)
        if name in self.builtins:
            return self.builtins[name]
        if name in self.types:
            return self.types[name]
        if hasattr(builtins, name):
            raise Undecided("builtin " + name)
        self.py_raise("NameError", f"name '{name}' is not defined")

    def lift_undef(self, v):
        if isinstance(v, Ite) and (v.a is UNDEF or v.b is UNDEF or isinstance(v.a, Ite) or isinstance(v.b, Ite)):
            if self.has_undef(v):
                k = self.decide(v.c)
                return self.lift_undef(v.a if k else v.b)
        return v

    def has_undef(self, v):
        return v is UNDEF or isinstance(v, Ite) and (self.has_undef(v.a) or self.has_undef(v.b))

    def assign_name(self, name, v):
        cell = self.frame()
        f = self.stack[-1][0]
        # comprehension frames: walrus handled separately
        info = self.fn_info(f) if f.node is not None else None
        if info is not None and self.frame_kind.get(cell) == "fn":
            if name in info[1]:
                self.set_var(self.mod_cell(cell), name, v)
                return
            if name in info[2]:
                c = self.parents.get(cell)
                while c is not None:
                    if self.frame_kind.get(c) in ("fn", "comp") and name in self.get_vars(c):
                        self.set_var(c, name, v)
                        return
                    c = self.parents.get(c)
        self.set_var(cell, name, v)

    def mod_cell(self, cell):
        while self.parents.get(cell) is not None:
            cell = self.parents[cell]
        return cell

    def fn_info(self, f):
        k = id(f.node)
        r = self.locals_cache.get(k)
        if r is None:
            r = self.locals_cache[k] = find_locals(f.node)
        return r

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.gate is ZERO:
                return
            self.exec_stmt(s)

    def snap(self):
        return (dict(self.state), self.gate, len(self.raises), {k: len(v) for k, v in self.flows.items()}, len(self.idxs))

    def exec_stmt(self, s):
        snap = self.snap()
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("analysis budget exhausted")
        try:
            self.do_stmt(s)
        except Dead:
            self.gate = ZERO
        except NeedFork as f:
            if not self.elem_depth and any(x.kind == "ax" for x in f.atom.leaves):
                raise Undecided("a statement depends on a condition on array elements")
            state, g0, nr, nf, ni = snap
            self.state = dict(state)
            self.gate = g0
            del self.raises[nr:]
            for k, n in nf.items():
                del self.flows[k][n:]
            del self.idxs[ni:]
            self.fork(f.atom, lambda: self.exec_stmt(s), (state, g0))

    def do_stmt(self, s):
        st = self.stack[-1]
        self.cur = (self.file_of(st[2]), s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement " + type(s).__name__)
        m(s)

    def file_of(self, cell):
        k = self.frame_mod.get(self.mod_cell(cell))
        return k[1] if isinstance(k, tuple) else "?"

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                m = self.import_module(a.name)
                self.assign_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.import_module(a.name)
                self.assign_name(top, self.import_module(top))

    def rel_name(self, mod, level):
        if not level:
            return mod
        name, _, ispkg = self.frame_mod[self.mod_cell(self.frame())]
        parts = name.split(".")
        cut = level - (1 if ispkg else 0)
        if cut:
            parts = parts[:-cut]
        return ".".join(parts + ([mod] if mod else []))

    def s_ImportFrom(self, s):
        name = self.rel_name(s.module, s.level)
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Ext):
                    raise Undecided("star import of " + name)
                vs = self.get_vars(m.frame)
                if "__all__" in vs:
                    names = [x.lit for x in self.items(vs["__all__"])]
                else:
                    names = [k for k in vs if not k.startswith("_")]
                for n in names:
                    self.assign_name(n, self.getattr(m, n))
                continue
            if isinstance(m, Mod):
                vs = self.get_vars(m.frame)
                if a.name in vs:
                    v = vs[a.name]
                elif self.find_source(name + "." + a.name):
                    v = self.import_module(name + "." + a.name)
                else:
                    v = self.stub_name(m, a.name)
                    if v is None:
                        self.py_raise("ImportError", f"cannot import name '{a.name}' from '{name}'")
            else:
                v = self.getattr(m, a.name)
            self.assign_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.make_fn(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            if not self.is_dataclass(d):
                v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)

    def is_dataclass(self, d):
        if isinstance(d, ast.Call):
            if any(k.arg not in ("repr", "frozen", "slots") for k in d.keywords):
                return False
            d = d.func
        return (d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "") == "dataclass"

    def dataclass_body(self, body):
        """The __init__ a dataclass gets from its fields."""
        pars, sets = [], []
        for x in body:
            if not isinstance(x, ast.AnnAssign):
                continue
            n, v = x.target.id, x.value
            if isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) == "field":
                kw = {k.arg: ast.unparse(k.value) for k in v.keywords}
                if "default_factory" in kw and len(kw) == 1:
                    pars.append(n + "=None")
                    sets.append(f"self.{n} = ({kw['default_factory']})() if {n} is None else {n}")
                    continue
                raise Undecided("field of a dataclass")
            pars.append(n if v is None else f"{n}={ast.unparse(v)}")
            sets.append(f"self.{n} = {n}")
        if "__post_init__" in [getattr(x, "name", "") for x in body]:
            sets.append("self.__post_init__()")
        f = ast.parse("def __init__(self, %s):\n    %s" % (", ".join(pars), "\n    ".join(sets or ["pass"]))).body[0]
        for y in ast.walk(f):
            if hasattr(y, "lineno"):
                y.lineno = y.end_lineno = body[0].lineno
        keep = [x for x in body if not isinstance(x, ast.AnnAssign)]
        return keep + [f]

    def make_fn(self, node, name):
        f = Fn()
        f.node, f.name, f.owner = node, name, None
        cell = self.frame()
        f.mod = self.mod_cell(cell)
        f.frame = self.parents[cell] if self.frame_kind.get(cell) == "class" else cell
        f.sub = ()
        a = node.args
        f.defaults = tuple(self.ev(x) for x in a.defaults)
        f.kwdefaults = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.elementwise = False
        f.isgen = self.fn_info(f)[4]
        f.locals = None
        return f

    def s_ClassDef(self, s):
        bases = [self.res(self.ev(b)) for b in s.bases]
        cls_bases = []
        named = False
        body = s.body
        for b in bases:
            if isinstance(b, Ext) and b.name == "typing.NamedTuple":
                named = True
            elif isinstance(b, Cls):
                cls_bases.append(b)
            elif isinstance(b, Ext):
                raise Undecided("base class " + b.name)
            else:
                self.py_raise("TypeError", "bases must be types")
        cell = self.new("frame", FrameC({}))
        par = self.frame()
        self.parents[cell] = par
        self.frame_kind[cell] = "class"
        fake = Fn()
        fake.node, fake.name, fake.owner = None, s.name, None
        self.stack.append((fake, self.cur, cell))
        try:
            if any(self.is_dataclass(d) for d in s.decorator_list):
                body = self.dataclass_body(s.body)
            self.exec_block(body)
        finally:
            self.stack.pop()
        if self.gate is ZERO:
            raise Dead()
        ns = dict(self.get_vars(cell))
        if named:
            names = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
            base = Cls(s.name, (self.types["tuple"],))
            base.ctor, base.fields = "nt", (names, {n: ns.pop(n) for n in names if n in ns})
            cls_bases.append(base)
        cls = Cls(s.name, cls_bases or [self.types["object"]], ns, self.mod_cell(par), None, s)
        cls.cell = cell
        for b in cls.mro:
            if b.ctor and not cls.ctor:
                cls.ctor = b.ctor
            if b.fields and not cls.fields:
                cls.fields = b.fields
        for v in ns.values():
            self.set_owner(v, cls)
        v = cls
        for d in reversed(s.decorator_list):
            if not self.is_dataclass(d):
                v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)

    def is_dataclass(self, d):
        if isinstance(d, ast.Call):
            if any(k.arg not in ("repr", "frozen", "slots") for k in d.keywords):
                return False
            d = d.func
        return (d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "") == "dataclass"

    def dataclass_body(self, body):
        """The __init__ a dataclass gets from its fields."""
        pars, sets = [], []
        for x in body:
            if not isinstance(x, ast.AnnAssign):
                continue
            n, v = x.target.id, x.value
            if isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) == "field":
                kw = {k.arg: ast.unparse(k.value) for k in v.keywords}
                if "default_factory" in kw and len(kw) == 1:
                    pars.append(n + "=None")
                    sets.append(f"self.{n} = ({kw['default_factory']})() if {n} is None else {n}")
                    continue
                raise Undecided("field of a dataclass")
            pars.append(n if v is None else f"{n}={ast.unparse(v)}")
            sets.append(f"self.{n} = {n}")
        if "__post_init__" in [getattr(x, "name", "") for x in body]:
            sets.append("self.__post_init__()")
        f = ast.parse("def __init__(self, %s):\n    %s" % (", ".join(pars), "\n    ".join(sets or ["pass"]))).body[0]
        for y in ast.walk(f):
            if hasattr(y, "lineno"):
                y.lineno = y.end_lineno = body[0].lineno
        keep = [x for x in body if not isinstance(x, ast.AnnAssign)]
        return keep + [f]

    def set_owner(self, v, cls):
        if isinstance(v, Fn):
            if v.owner is None:
                v.owner = cls
                v.name = f"{cls.name}.{v.node.name}" if hasattr(v.node, "name") else v.name
        elif isinstance(v, (StaticM, ClassM, LruFn)):
            self.set_owner(v.fn, cls)
        elif isinstance(v, PropV):
            for f in (v.get, v.set):
                if f is not None:
                    self.set_owner(f, cls)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.flows["return"].append((self.gate, dict(self.state), v))
        self.gate = ZERO
        raise Dead()

    def s_Break(self, s):
        self.flows["break"].append((self.gate, dict(self.state)))
        self.gate = ZERO
        raise Dead()

    def s_Continue(self, s):
        self.flows["continue"].append((self.gate, dict(self.state)))
        self.gate = ZERO
        raise Dead()

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.items(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if any(isinstance(x, (MapSeg, PreSeg)) for x in items):
                src = self.res(v)
                if len(star) != 1 or not isinstance(src, ArrV):
                    raise Undecided("unpacking a sequence of symbolic length")
                # a, *b, c = array: the ends by their positions, the rest as a list
                k, after = star[0], len(t.elts) - star[0] - 1
                for i, x in enumerate(t.elts):
                    if i < k:
                        self.assign(x, self.getitem(src, intv(i)))
                    elif i > k:
                        self.assign(x, self.getitem(src, intv(i - len(t.elts))))
                    else:
                        rest = self.getitem(src, SliceV(intv(k), intv(-after) if after else NONE, NONE))
                        self.assign(x.value, self.new_list(self.items(rest)))
                return
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.py_raise("ValueError", "not enough values to unpack")
                mid = items[k:len(items) - after]
                items = items[:k] + [self.new_list(mid)] + items[len(items) - after:]
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            if len(items) != len(t.elts):
                self.py_raise("ValueError", f"cannot unpack {len(items)} values into {len(t.elts)} targets")
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided("assignment target")

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            self.assign_name(t.id, self.inplace(op, self.lookup(t.id), self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.setattr(o, t.attr, self.inplace(op, self.getattr(o, t.attr), self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setitem(o, k, self.inplace(op, self.getitem(o, k), self.ev(s.value)))
        else:
            raise Undecided("augmented assignment target")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                cell = self.frame()
                vs = dict(self.get_vars(cell))
                if t.id not in vs:
                    self.py_raise("NameError", t.id)
                del vs[t.id]
                self.state[cell] = FrameC(vs)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value), self.ev(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.res(self.ev(t.value))
                c = self.content(o) if isinstance(o, Ref) else None
                if not isinstance(c, ObjC) or t.attr not in c.attrs:
                    self.py_raise("AttributeError", t.attr)
                at = dict(c.attrs)
                del at[t.attr]
                self.put(o, ObjC(c.cls, at))
            else:
                raise Undecided("del")

    def s_If(self, s):
        c = self.simp(self.truth(self.ev(s.test)))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f1, f2):
        if c is ONE:
            return f1()
        if c is ZERO:
            return f2()
        base, g0 = self.state, self.gate
        res = []
        for cc, f in ((c, f1), (T.c_not(c), f2)):
            self.state = dict(base)
            self.gate = mul(g0, cc)
            if self.path() is ZERO:
                self.gate = ZERO
            else:
                try:
                    f()
                except Dead:
                    self.gate = ZERO
            res.append((self.gate, self.state))
        self.join(c, res[0], res[1], base)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.py_raise("AssertionError", "assert", T.c_not(c))

    def s_Raise(self, s):
        if s.exc is None:
            for f, _, cell in reversed(self.stack):
                e = self.get_vars(cell).get("<exc>")
                if e is not None:
                    self.do_raise(self.res(e))
            raise Undecided("bare raise")
        e = self.res(self.ev(s.exc))
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        c = self.content(e) if isinstance(e, Ref) else None
        if not isinstance(c, ObjC) or not c.cls.is_sub(self.types["BaseException"]):
            if isinstance(e, Ext):
                raise Undecided("raise of external " + e.name)
            self.py_raise("TypeError", "exceptions must derive from BaseException")
        self.do_raise(e)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_With(self, s):
        def go(k):
            if k == len(s.items):
                self.exec_block(s.body)
                return
            it = s.items[k]
            m = self.res(self.ev(it.context_expr))
            if isinstance(m, Ext):
                v = m
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                if not m.name.startswith(("numpy.errstate", "warnings", "contextlib.suppress.none")):
                    raise Undecided("context manager " + m.name)
                go(k + 1)
                return
            v = self.call(self.getattr(m, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.protected(lambda: go(k + 1), lambda: self.call(self.getattr(m, "__exit__"), [NONE, NONE, NONE], {}))
        go(0)

    def protected(self, body, final):
        """try: body finally: final"""
        nr = len(self.raises)
        nf = {k: len(v) for k, v in self.flows.items()}
        try:
            body()
        except Dead:
            self.gate = ZERO
        rs = self.raises[nr:]
        del self.raises[nr:]
        fl = {k: v[nf[k]:] for k, v in self.flows.items()}
        for k in fl:
            del self.flows[k][nf[k]:]

        def run(g, st):
            save = (self.gate, self.state)
            self.gate, self.state = g, dict(st)
            try:
                final()
            except Dead:
                self.gate = ZERO
            r = (self.gate, self.state)
            self.gate, self.state = save
            return r
        for r in rs:
            g, st = run(r[0], r[2])
            if g is not ZERO:
                self.raises.append((g, r[1], st) + r[3:])
        for k, vs in fl.items():
            for x in vs:
                g, st = run(x[0], x[1])
                if g is not ZERO:
                    self.flows[k].append((g, st) + tuple(x[2:]))
        if self.gate is not ZERO:
            self.gate, self.state = run(self.gate, self.state)

    def s_Try(self, s):
        if s.finalbody:
            self.protected(lambda: self.try_main(s), lambda: self.exec_block(s.finalbody))
        else:
            self.try_main(s)

    def try_main(self, s):
        g0, base = self.gate, dict(self.state)
        nr = len(self.raises)
        nf = {k: len(v) for k, v in self.flows.items()}
        out0, self.outer, self.gate = self.outer, mul(self.outer, self.gate), ONE
        try:
            try:
                self.exec_block(s.body)
            except Dead:
                self.gate = ZERO
            rs = self.raises[nr:]
            del self.raises[nr:]
            if self.gate is not ZERO and s.orelse:
                try:
                    self.exec_block(s.orelse)
                except Dead:
                    self.gate = ZERO
            acc = (self.gate, self.state)
            for r in rs:
                h = None
                self.gate, self.state = r[0], dict(r[2])
                ec = self.exc_cls(r[1])
                for hd in s.handlers:
                    if hd.type is None:
                        h = hd
                        break
                    t = self.res(self.ev(hd.type))
                    ts = self.items(t) if isinstance(t, Tup) else [t]
                    if any(isinstance(x, Cls) and ec.is_sub(x) for x in map(self.res, ts)):
                        h = hd
                        break
                if h is None:
                    self.raises.append(r)
                    continue
                fc = self.frame()
                if h.name:
                    self.set_var(fc, h.name, r[1])
                old = self.get_vars(fc).get("<exc>")
                self.set_var(fc, "<exc>", r[1])
                try:
                    self.exec_block(h.body)
                except Dead:
                    self.gate = ZERO
                if self.gate is not ZERO:
                    vs = dict(self.get_vars(fc))
                    vs.pop("<exc>", None)
                    if old is not None:
                        vs["<exc>"] = old
                    if h.name:
                        vs.pop(h.name, None)
                    self.state[fc] = FrameC(vs)
                cur = (self.gate, self.state)
                self.join(acc[0], acc, cur, base)
                acc = (self.gate, self.state)
            self.gate, self.state = acc
        finally:
            self.outer = out0
        # gates back to the surrounding level
        self.gate = mul(g0, self.gate)
        for i in range(nr, len(self.raises)):
            r = self.raises[i]
            self.raises[i] = (mul(g0, r[0]),) + r[1:]
        for k, v in self.flows.items():
            for i in range(nf[k], len(v)):
                v[i] = (mul(g0, v[i][0]),) + tuple(v[i][1:])

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        if isinstance(self.res(it), MaskedV):
            return self.for_selection(s, self.res(it))
        items = self.items(it)
        self.run_loop(self.live(it, items), lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body), s.orelse)

    def for_selection(self, s, sel):
        """Loop over a selection: all entries, each pass under its condition."""
        if self.as_arr(sel.arr).ndim != 1:
            raise Undecided("iteration over a selection")
        vals, conds = self.items(sel.arr), self.items(self.new_arr(sel.mask))
        if len(vals) != len(conds) or any(isinstance(x, MapSeg) for x in vals + conds):
            raise Undecided("iteration over a selection")
        now = [None]

        def body():
            c = self.simp(self.truth(now[0].items[1]))

            def one():
                self.assign(s.target, now[0].items[0])
                self.exec_block(s.body)
            self.branch(c, one, lambda: None)
        self.run_loop([Tup([a, b]) for a, b in zip(vals, conds)], lambda v: now.__setitem__(0, v), body, s.orelse)

    def live(self, it, items):
        """Items of a list that the loop body may change while it is visited."""
        if not isinstance(it, Ref) or it.sub or any(isinstance(x, (MapSeg, PreSeg)) for x in items):
            return items
        if not isinstance(self.state.get(it.cell), ListC):
            return items
        return self.live_items(it, items)

    def live_items(self, it, items):
        k = 0
        while True:
            c = self.state.get(it.cell)
            if not isinstance(c, ListC):
                raise Undecided("list changes in some passes of a loop over it")
            if k >= len(c.items):
                return
            if any(isinstance(x, (MapSeg, PreSeg)) for x in c.items):
                raise Undecided("list grows in a loop over it")
            yield c.items[k]
            k += 1
            if k > 2000:
                raise Undecided("list grows without end")

    def run_loop(self, items, bind, body, orelse=()):
        if isinstance(items, (list, tuple)) and any(isinstance(x, (MapSeg, PreSeg)) for x in items):
            import loops
            return loops.symbolic(self, items, bind, body, orelse)
        base = dict(self.state)
        nb, nc = len(self.flows["break"]), len(self.flows["continue"])
        for x in items:
            if self.gate is ZERO:
                break
            try:
                bind(x)
                body()
            except Dead:
                self.gate = ZERO
            self.collect("continue", nc, base)
        if self.gate is not ZERO and orelse:
            try:
                self.exec_block(orelse)
            except Dead:
                self.gate = ZERO
        self.collect("break", nb, base)

    def collect(self, kind, n, base):
        """Join the states that left through break/continue."""
        fl = self.flows[kind][n:]
        del self.flows[kind][n:]
        for g, st in fl:
            self.join(self.gate, (self.gate, self.state), (g, st), base)

    def s_While(self, s):
        base = dict(self.state)
        nb, nc = len(self.flows["break"]), len(self.flows["continue"])
        n = 0
        opened = 0
        exits = []
        while self.gate is not ZERO:
            try:
                c = self.simp(self.truth(self.ev(s.test)))
            except Dead:
                self.gate = ZERO
                break
            if c is ZERO:
                break
            if c is not ONE:
                # the paths that leave here are kept, the others go on
                opened += 1
                exits.append((mul(self.gate, T.c_not(c)), dict(self.state)))
                if opened > 3:
                    self.cut = self.cur
                    self.gate = ZERO
                    break
                self.gate = mul(self.gate, c)
            n += 1
            if n > 300:
                raise Undecided("while loop without a bound")
            try:
                self.exec_block(s.body)
            except Dead:
                self.gate = ZERO
            self.collect("continue", nc, base)
        for g, st in exits:
            self.join(self.gate, (self.gate, self.state), (g, st), base)
        if self.gate is not ZERO and s.orelse:
            self.exec_block(s.orelse)
        self.collect("break", nb, base)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return ELL
        if isinstance(v, int):
            return Num(T.num(v), "int")
        if isinstance(v, float):
            return Num(T.num(v), "float")
        if isinstance(v, str):
            return Str(v)
        raise Undecided("constant")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev(e.slice))

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        r = Ref(self.new("set", SetC(())))
        for x in self.elts(e.elts):
            self.set_add(r, x)
        return r

    def e_Dict(self, e):
        r = self.new_dict(())
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.dict_items(self.ev(v)):
                    self.setitem(r, kk, vv)
            else:
                kk = self.ev(k)
                self.setitem(r, kk, self.ev(v))
        return r

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value)
                parts.append(self.to_str(v) if x.format_spec is None and x.conversion == -1 else
                             Str(self.to_str(v)))
        return Str(*parts)

    def e_IfExp(self, e):
        c = self.simp(self.truth(self.ev(e.test)))
        return self.select(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def select(self, c, f1, f2):
        """Value of f1 if c else f2 (both may have effects)."""
        if c is ONE:
            return f1()
        if c is ZERO:
            return f2()
        base, g0 = self.state, self.gate
        res = []
        for cc, f in ((c, f1), (T.c_not(c), f2)):
            self.state = dict(base)
            self.gate = mul(g0, cc)
            v = UNDEF
            if self.path() is ZERO:
                self.gate = ZERO
            else:
                try:
                    v = f()
                except Dead:
                    self.gate = ZERO
            res.append((self.gate, self.state, v))
        r = self.join(c, res[0][:2], res[1][:2], base, (res[0][2], res[1][2]))
        if self.gate is ZERO:
            raise Dead()
        return r

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.simp(self.truth(v))
            if isand:
                return self.select(c, lambda: go(k + 1), lambda: v)
            return self.select(c, lambda: v, lambda: go(k + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return boolv(T.c_not(self.truth(v)))
        return self.unary(op, v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        ops = list(zip(e.ops, e.comparators))

        def go(left, k):
            op, r = ops[k]
            right = self.ev(r)
            v = self.compare_op(type(op).__name__, left, right)
            if k == len(ops) - 1:
                return v
            c = self.simp(self.truth(v))
            return self.select(c, lambda: go(right, k + 1), lambda: v)
        return go(left, 0)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        cell = self.frame()
        while self.frame_kind.get(cell) == "comp":
            cell = self.parents[cell]
        self.set_var(cell, e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.make_fn(e, "<lambda>")

    def e_Starred(self, e):
        raise Undecided("starred expression")

    def e_Call(self, e):
        f = self.ev(e.func)
        # zero-argument super()
        if isinstance(f, Built) and f.name == "super" and not e.args:
            for fn, _, cell in reversed(self.stack):
                if fn.node is not None and fn.owner is not None and self.frame_kind.get(cell) == "fn":
                    a = fn.node.args
                    first = (a.posonlyargs + a.args)[0].arg
                    return SuperV(fn.owner, self.get_vars(cell)[first])
            raise Undecided("super()")
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args += self.items(self.ev(x.value))
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value)):
                    if isinstance(kk, Str) and kk.lit is not None:
                        if kk.lit in kw:
                            self.py_raise("TypeError", f"got multiple values for keyword argument '{kk.lit}'")
                        kw[kk.lit] = vv
                    else:
                        raise Undecided("symbolic keyword")
            else:
                kw[k.arg] = self.ev(k.value)
        st = self.stack[-1]
        self.cur = (self.file_of(st[2]), e.lineno)
        return self.call(f, args, kw)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        self.do_yield([v])
        return NONE

    def e_YieldFrom(self, e):
        self.do_yield(self.items(self.ev(e.value)))
        return NONE

    def do_yield(self, items):
        cell = self.frame()
        if self.gate is not ONE:
            raise Undecided("conditional yield")
        y = self.get_vars(cell)["<yield>"]
        self.put(y, ListC(self.content(y).items + tuple(items)))

    # ------------------------------------------------------------ comprehensions
    def comp(self, gens, emit, lazy=None):
        """Run emit() for each combination, in an own scope."""
        first = self.items(self.ev(gens[0].iter))
        par = self.frame()
        cell = self.new("frame", FrameC({}))
        self.parents[cell] = self.parents[par] if self.frame_kind.get(par) == "class" else par
        self.frame_kind[cell] = "comp"
        self.stack.append((self.stack[-1][0], self.cur, cell))

        def level(k, items):
            g = gens[k]

            def body():
                def inner(j):
                    if j == len(g.ifs):
                        if k == len(gens) - 1:
                            emit()
                        else:
                            level(k + 1, self.items(self.ev(gens[k + 1].iter)))
                        return
                    c = self.simp(self.truth(self.ev(g.ifs[j])))
                    if c.const is None:
                        c = ONE if self.decide(c) else ZERO
                    if c is ONE:
                        inner(j + 1)
                inner(0)
            self.run_loop(items, lambda v: self.assign(g.target, v), body)
        try:
            level(0, first)
        finally:
            self.stack.pop()
        if self.gate is ZERO:
            raise Dead()

    def comp_list(self, e):
        r = Ref(self.new("list", ListC(())))

        def emit():
            v = self.ev(e.elt)
            if self.gate is ZERO:
                raise Dead()
            self.put(r, ListC(self.content(r).items + (v,)))
        self.comp(e.generators, emit)
        return r

    def e_ListComp(self, e):
        return self.comp_list(e)

    def e_GeneratorExp(self, e):
        r = self.comp_list(e)
        c = self.content(r)
        if isinstance(c, ListC):
            self.state[r.cell] = IterC(c.items)
            self.info[r.cell].kind = "iter"
        return r

    def e_SetComp(self, e):
        r = Ref(self.new("set", SetC(())))
        self.comp(e.generators, lambda: self.set_add(r, self.ev(e.elt)))
        return r

    def e_DictComp(self, e):
        r = self.new_dict(())

        def emit():
            k = self.ev(e.key)
            self.setitem(r, k, self.ev(e.value))
        self.comp(e.generators, emit)
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.res(f)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Built):
            if f.raw:
                return f.f(self, args, kw)
            return self.native(self.call_built, f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, LruFn):
            return self.call_lru(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kw)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.fn, args, kw)
        if isinstance(f, Ref):
            c = self.content(f)
            if isinstance(c, ObjC):
                m, _ = c.cls.find("__call__")
                if m is not None:
                    return self.call(m, [f] + list(args), kw)
        self.py_raise("TypeError", f"'{self.type_of(f).name}' object is not callable")

    def call_built(self, b, args, kw):
        import inspect
        try:
            sig = inspect.signature(b.f)
            sig.bind(self, *args, **kw)
        except TypeError as ex:
            raise Undecided(f"arguments of {b.name}: {ex}")
        return b.f(self, *args, **kw)

    def call_ext(self, f, args, kw):
        n = f.name
        h = self.extcalls.get(n)
        if h is not None:
            return self.native(self.call_built, Built(n, h), args, kw)
        for p in ("logging.", "warnings."):
            if n.startswith(p):
                return Ext("logging.obj")
        h = self.more(n)
        if h is not None:
            return self.call(h, args, kw)
        raise Undecided("call of " + n)

    def more(self, n):
        """A library function that is written in terms of others (stubs/more_*.py)."""
        top, _, rest = n.partition(".")
        m = self.modules.get("more_" + top)
        if not rest or m is None:
            return None
        return self.get_vars(m.frame).get(rest.replace(".", "_"))

    def call_lru(self, f, args, kw):
        key = Tup(list(args) + [Tup([Str(k), kw[k]]) for k in sorted(kw)])
        for a in list(args) + list(kw.values()):
            self.check_hashable(a)
        ref = Ref(f.cell)
        c = self.content(ref)
        if any(isinstance(x, (MapSeg, PreSeg)) for x in c.items):
            raise Undecided("cache filled in a symbolic loop")
        for k, v in c.items:
            if self.same(k, key):
                return v
        r = self.call(f.fn, args, kw)
        c = self.content(ref)
        self.state[f.cell] = ListC(c.items + ((key, r),))
        return r

    def check_hashable(self, a):
        a = self.res(a)
        if isinstance(a, ArrV):
            self.py_raise("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(a, Ref):
            c = self.content(a)
            if isinstance(c, (ListC, DictC, SetC)):
                self.py_raise("TypeError", "unhashable type")
        if isinstance(a, Tup):
            for x in a.items:
                if isinstance(x, V):
                    self.check_hashable(x)

    def bind(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        if any(isinstance(x, (MapSeg, PreSeg)) for x in args):
            if a.vararg is None or len(pos):
                raise Undecided("argument list of symbolic length")
        name = f.name
        out = {}
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.py_raise("TypeError", f"{name}() takes {n} positional arguments but {len(args)} were given")
        for p, v in zip(pos, args):
            out[p.arg] = v
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(args[n:])
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    self.py_raise("TypeError", f"{name}() got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.py_raise("TypeError", f"{name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in out:
                j = i - (n - nd)
                if j >= 0:
                    out[p.arg] = f.defaults[j]
                else:
                    self.py_raise("TypeError", f"{name}() missing required positional argument: '{p.arg}'")
        for p in a.kwonlyargs:
            if p.arg not in out:
                if p.arg in f.kwdefaults:
                    out[p.arg] = f.kwdefaults[p.arg]
                else:
                    self.py_raise("TypeError", f"{name}() missing required keyword argument: '{p.arg}'")
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict([(Str(k), v) for k, v in extra.items()])
        return out

    def call_fn(self, f, args, kw):
        if f.elementwise:
            return self.call_elementwise(f, args, kw)
        if len(self.stack) > MAXDEPTH:
            self.py_raise("RecursionError", "maximum recursion depth exceeded in " + f.name)
        vs = self.bind(f, args, kw)
        self.ncalls += 1
        info = self.fn_info(f)
        if f.isgen:
            vs["<yield>"] = self.new_list(())
        cell = self.new("frame", FrameC(vs))
        self.parents[cell] = f.frame
        self.frame_kind[cell] = "fn"
        self.frame_mod[cell] = info[0]
        k = (self.file_of(f.mod), f.name, f.node.lineno)
        self.analysed[k] = self.analysed.get(k, 0) + 1
        callsite = self.cur
        base = dict(self.state)
        saved = self.enter()
        self.stack.append((f, callsite, cell))
        ok = False
        try:
            if isinstance(f.node, ast.Lambda):
                r = ast.copy_location(ast.Return(value=f.node.body), f.node.body)
                self.exec_stmt(r)
            else:
                self.exec_block(f.node.body)
            ok = True
        except Dead:
            self.gate = ZERO
            ok = True
        finally:
            self.stack.pop()
            if not ok:
                self.leave(saved)
        rets = self.flows["return"]
        if self.gate is not ZERO:
            rets = rets + [(self.gate, self.state, NONE)]
        acc = None
        for g, st, v in rets:
            if g is ZERO:
                continue
            if acc is None:
                acc = (g, st, v)
                continue
            r = self.join(acc[0], acc[:2], (g, st), base, (acc[2], v))
            acc = (self.gate, self.state, r)
        rs = self.leave(saved)
        self.raises += rs
        self.cur = callsite
        if acc is None:
            self.gate = ZERO
            raise Dead()
        self.state = acc[1]
        self.gate = mul(self.gate, acc[0])
        if self.gate is ZERO:
            raise Dead()
        v = acc[2]
        if f.isgen:
            y = self.get_vars(cell)["<yield>"]
            v = Ref(self.new("iter", IterC(self.content(y).items)))
        if not info[3] and cell in self.state:
            del self.state[cell]
        return v

    def call_elementwise(self, f, args, kw):
        g = f.copy()
        g.elementwise = False
        args = [self.res(a) for a in args]
        if not any(isinstance(a, (ArrV, MaskedV)) or isinstance(a, Ref) for a in args):
            v = self.res(self.call_fn(g, args, kw))
            return Num(v.p, "npfloat") if isinstance(v, Num) else v
        arrs = self.native(A.bcast, [self.as_arr(a) for a in args])
        blocks = {}

        def poly(v):
            # conditions on the element must not split the calling statement
            if isinstance(v, Ite):
                return T.ite(self.simp(v.c), poly(v.a), poly(v.b))
            if not isinstance(v, Num):
                raise Undecided("elementwise result")
            return v.p
        for k in arrs[0].blocks:
            g0 = self.gate
            self.elem_depth += 1
            try:
                v = self.call_fn(g, [Num(a.blocks[k], "npfloat") for a in arrs], kw)
            except NeedFork:
                raise Undecided("elementwise condition")
            finally:
                self.elem_depth -= 1
            blocks[k] = poly(v)
            if self.gate is not g0 and any(x.kind == "ax" for x in self.gate.leaves - g0.leaves):
                raise Undecided("exception in an elementwise function")
        return self.result(ArrC(arrs[0].axes, blocks, "float"))

    # ------------------------------------------------------------ classes
    def instantiate(self, cls, args, kw):
        if cls in self.builtin_ctor:
            return self.native(self.call_built, Built(cls.name, self.builtin_ctor[cls]), args, kw)
        if cls.ctor == "exc" and cls.find("__init__")[0] is None:
            return Ref(self.new("obj", ObjC(cls, {"args": Tup(args)})))
        if cls.ctor == "nt":
            return self.make_nt(cls, args, kw)
        ab = self.abstract_names(cls)
        if ab and any(b.name == "ABC" for b in cls.mro):
            self.py_raise("TypeError", f"Can't instantiate abstract class {cls.name} with abstract methods {', '.join(ab)}")
        new, owner = cls.find("__new__")
        if new is not None:
            o = self.res(self.call(new.fn if isinstance(new, StaticM) else new, [cls] + list(args), kw))
            c = self.content(o) if isinstance(o, Ref) else None
            if not isinstance(c, ObjC):
                raise Undecided("__new__ of " + cls.name)
            if not c.cls.is_sub(cls):
                return o
        else:
            o = self.bare(cls, args)
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw)
        elif (args or kw) and new is None:
            if cls.name in self.types and self.types[cls.name] is cls and cls is not self.types["object"]:
                raise Undecided("call of " + cls.name)
            self.py_raise("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bare(self, cls, args=()):
        """An instance without attributes, as object.__new__ makes it."""
        for b in cls.mro:
            if b in self.builtin_ctor and b is not self.types["object"]:
                raise Undecided("subclass of " + b.name)
        return Ref(self.new("obj", ObjC(cls, {"args": Tup(args)} if cls.ctor == "exc" else {})))

    def object_new(self):
        def f(ip, c, *a, **k):
            c = ip.res(c)
            if not isinstance(c, Cls) or c.ctor == "nt":
                raise Undecided("object.__new__")
            return ip.bare(c, a)
        return Built("__new__", f)

    def cls_find(self, cls, name):
        """Class attribute in the current state."""
        for c in cls.mro:
            if c.cell is not None and name in c.ns:
                v = self.get_vars(c.cell).get(name, c.ns[name])
                if isinstance(v, Ite):
                    v = self.lift_undef(v)
                if v is UNDEF:
                    continue
                return v, c
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def abstract_names(self, cls):
        out = []
        seen = set()
        for c in cls.mro:
            for k, v in c.ns.items():
                if k in seen:
                    continue
                seen.add(k)
                if self.is_abstract(v):
                    out.append(k)
        return out

    def is_abstract(self, v):
        if isinstance(v, Fn):
            return id(v.node) in self.abstract
        if isinstance(v, PropV):
            return v.get is not None and self.is_abstract(v.get)
        if isinstance(v, (StaticM, ClassM, LruFn)):
            return self.is_abstract(v.fn)
        return False

    def make_nt(self, cls, args, kw):
        names, defaults = cls.fields
        if len(args) > len(names):
            self.py_raise("TypeError", f"{cls.name} takes {len(names)} arguments")
        vals = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in vals:
                self.py_raise("TypeError", f"{cls.name}: bad argument {k}")
            vals[k] = v
        for n in names:
            if n not in vals:
                if n in defaults:
                    vals[n] = defaults[n]
                else:
                    self.py_raise("TypeError", f"{cls.name} missing argument {n}")
        return NT(cls, [vals[n] for n in names])

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        v = self.getattr_opt(o, name)
        if v is None:
            o = self.res(o)
            self.known_attr(o, name)
            self.py_raise("AttributeError", f"'{self.type_of(o).name}' object has no attribute '{name}'")
        return v

    def known_attr(self, o, name):
        """An attribute Python has and the analyser does not is no error of the package."""
        o = self.res(o)
        k = type(o)
        if k is Ref and isinstance(self.content(o), ObjC):
            real = object
        else:
            real = {Cls: type, Fn: types.FunctionType, BoundM: types.MethodType, PropV: property, NT: tuple,
                    Built: type(len)}.get(k)
        if real is not None and hasattr(real, name) or k is LruFn and name.startswith("cache_"):
            raise Undecided(f"attribute {name} of {self.type_of(o).name}")

    def stub_name(self, m, name):
        """A name the model of a library does not have: unknown, unless the model says it does not exist."""
        p = self.find_source(m.name)
        if p is None or not p.startswith(self.stubs + os.sep):
            return None
        ab = self.get_vars(m.frame).get("__absent__")
        if ab is not None and name in [x.lit for x in self.items(ab)]:
            return None
        n = m.name + "." + name
        return self.extvals.get(n) or Ext(n)

    def getattr_opt(self, o, name):
        o = self.res(o)
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ObjC):
                return self.obj_attr(o, c, name)
            m = self.method(o, c, name)
            return m
        if isinstance(o, Mod):
            vs = self.get_vars(o.frame)
            if name in vs:
                return vs[name]
            if self.find_source(o.name + "." + name) and (o.name + "." + name) in self.modules:
                return self.modules[o.name + "." + name]
            return self.stub_name(o, name)
        if isinstance(o, Ext):
            n = o.name + "." + name
            if n in self.extvals:
                return self.extvals[n]
            if self.find_source(n):
                return self.import_module(n)
            return Ext(n)
        if isinstance(o, Cls):
            return self.cls_attr(o, name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, PropV):
            if name in ("setter", "getter", "deleter"):
                def mk(ip, f, o=o, name=name):
                    return PropV(f if name == "getter" else o.get, f if name == "setter" else o.set, o.del_)
                return Built("property." + name, mk)
            if name == "fget":
                return o.get
            return None
        if isinstance(o, NT):
            names = o.cls.fields[0]
            if name in names:
                return o.items[names.index(name)]
            if name == "_asdict":
                return Built(name, lambda ip: ip.new_dict([(Str(n), x) for n, x in zip(names, o.items)]))
            if name == "_replace":
                return Built(name, lambda ip, args, kw: NT(o.cls, [kw.get(n, x) for n, x in zip(names, o.items)]), raw=True)
            if name == "_fields":
                return Tup([Str(n) for n in names])
            m, _ = o.cls.find(name)
            if m is not None:
                return self.bind_attr(m, o, o.cls)
            return None
        if isinstance(o, Fn):
            if name == "__name__":
                return Str(getattr(o.node, "name", "<lambda>"))
            return None
        if isinstance(o, LruFn):
            if name == "cache_clear":
                def clr(ip):
                    ip.state[o.cell] = ListC(())
                    return NONE
                return Built(name, clr)
            return None
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self_
            if name in ("cache_clear",):
                return self.getattr_opt(o.fn, name)
            return None
        return self.method(o, None, name)

    def obj_attr(self, o, c, name):
        m, owner = self.cls_find(c.cls, name)
        if isinstance(m, PropV):
            if m.get is None:
                return None
            return self.call(m.get, [o], {})
        if name in c.attrs:
            v = c.attrs[name]
            if isinstance(v, Ite):
                v = self.lift_undef(v)
            if v is UNDEF:
                return None
            return v
        if m is not None:
            return self.bind_attr(m, o, c.cls)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return self.new_dict([(Str(k), v) for k, v in c.attrs.items()])
        g, _ = c.cls.find("__getattr__")
        if g is not None:
            return self.call(g, [o, Str(name)], {})
        if c.cls.ctor == "exc" and name == "with_traceback":
            return Built(name, lambda ip, tb: o)
        return None

    def bind_attr(self, m, o, cls):
        if isinstance(m, Fn) or isinstance(m, LruFn):
            return BoundM(m, o)
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, ClassM):
            return BoundM(m.fn, cls)
        if isinstance(m, PropV):
            return self.call(m.get, [o], {})
        return m

    def cls_attr(self, cls, name):
        m, owner = self.cls_find(cls, name)
        if m is None:
            if name == "__new__" and cls.ctor != "nt":
                return self.object_new()
            if name == "__name__":
                return Str(cls.name)
            if name == "__mro__":
                return Tup(cls.mro)
            if cls.fields and name in cls.fields[0]:
                return PropV(None)
            if cls.fields and name == "_make":
                return Built(name, lambda ip, it: NT(cls, ip.items(it)))
            if cls.fields and name == "_fields":
                return Tup([Str(n) for n in cls.fields[0]])
            if cls is self.types["dict"] or cls is self.types["OrderedDict"]:
                if name == "fromkeys":
                    def fk(ip, ks, v=NONE):
                        r = ip.new_dict(())
                        for k in ip.items(ks):
                            ip.setitem(r, k, v)
                        return r
                    return Built(name, fk)
            # unbound method of a builtin type
            if any(b in self.builtin_ctor for b in cls.mro[:1]) and cls.name in ("list", "dict", "str", "set", "tuple"):
                return Built(cls.name + "." + name,
                             lambda ip, args, kw: ip.call(ip.getattr(args[0], name), args[1:], kw), raw=True)
            return None
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, ClassM):
            return BoundM(m.fn, cls)
        return m

    def super_attr(self, s, name):
        o = self.res(s.obj)
        if isinstance(o, Cls):
            mro = o.mro
        else:
            c = self.content(o)
            mro = c.cls.mro
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.ns:
                m = c.ns[name]
                if c.cell is not None:
                    m = self.get_vars(c.cell).get(name, m)
                if m is UNDEF:
                    continue
                if isinstance(o, Cls):
                    if isinstance(m, ClassM):
                        return BoundM(m.fn, o)
                    return m.fn if isinstance(m, StaticM) else m
                return self.bind_attr(m, o, mro[0])
        if name in ("__init__", "__init_subclass__"):
            return Built(name, lambda ip, args, kw: NONE, raw=True)
        if name == "__new__":
            return self.object_new()
        if name == "__setattr__":
            return Built(name, lambda ip, n, v: ip.setattr(o, n.lit, v, True))
        return None

    def setattr(self, o, name, v, plain=False):
        o = self.res(o)
        if name == "__doc__":
            return NONE
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, ObjC):
                m, _ = c.cls.find(name)
                if isinstance(m, PropV):
                    if m.set is None:
                        self.py_raise("AttributeError", f"can't set attribute '{name}'")
                    self.call(m.set, [o, v], {})
                    return NONE
                sa, _ = c.cls.find("__setattr__")
                if sa is not None and not plain:
                    self.call(sa, [o, Str(name), v], {})
                    return NONE
                sl, _ = c.cls.find("__slots__")
                at = dict(c.attrs)
                at[name] = v
                self.put(o, ObjC(c.cls, at))
                return NONE
            self.py_raise("AttributeError", f"cannot set attribute '{name}'")
        if isinstance(o, Cls):
            if o.cell is None or name.startswith("__") or isinstance(self.cls_find(o, name)[0], PropV):
                raise Undecided("assignment to a class attribute")
            if name not in o.ns:
                o.ns[name] = UNDEF
            self.set_var(o.cell, name, v)
            return NONE
        if isinstance(o, Mod):
            self.set_var(o.frame, name, v)
            return NONE
        if isinstance(o, ArrV) and name == "shape":
            raise Undecided("assignment to shape")
        if isinstance(o, (Fn, LruFn)):
            return NONE
        if isinstance(o, Ext):
            return NONE
        self.py_raise("AttributeError", f"can't set attribute '{name}' of {self.type_of(o).name}")
