"""Whole-package rules on the syntax trees (filled by property id).

C38  who may use random numbers, and how
C39  names, attributes and calls inside the package fit what they refer to

Every rule is an under-approximation of errors: what it cannot resolve it counts as
unresolved and lets pass."""
import ast
import builtins
import os
import symtable
import warnings

warnings.simplefilter("ignore", SyntaxWarning)

PKG = "templatefitter"

NDARRAY = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes
cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes
ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size
sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())
COMMON = set()
for _t in (list, dict, str, tuple, set, int, float, bytes, type, object, Exception, range):
    COMMON |= set(dir(_t))
COMMON |= NDARRAY
# attributes of objects of other libraries that could be met under the same name
FOREIGN = set("""hist bar errorbar plot legend map join close migrad hesse minos get_fmin np_values np_errors np_matrix rvs pdf cdf sf
values errors fmin fval fun success status message x head tail loc iloc columns index name apply get put run start reset copy update
draw show savefig clear""".split())


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src)
        self.table = symtable.symtable(src, path, "exec")
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.imports = {}      # local name -> dotted target
        self.defs = {}         # top level functions and classes
        self.names = set()     # all top level bindings
        self.stars = []
        self.dynamic = False


class Class:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}      # name -> (node, kind)
        self.attrs = set()
        self.bases = []
        self.base_names = []
        self.open = False      # attributes cannot be enumerated
        self.fields = None


def load(repo):
    root = os.path.join(repo, PKG)
    mods = {}
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, repo)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            try:
                mods[name] = Module(name, p, rel, open(p).read())
            except SyntaxError:
                continue
    for m in mods.values():
        scan_module(m, mods)
    return mods


def absolute(m, module, level):
    if not level:
        return module or ""
    parts = m.name.split(".")
    cut = level - (1 if m.is_pkg else 0)
    if cut:
        parts = parts[:-cut]
    return ".".join(parts + ([module] if module else []))


def scan_module(m, mods):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.imports[a.asname] = a.name
                else:
                    m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = absolute(m, n.module, n.level)
            for a in n.names:
                if a.name == "*":
                    m.stars.append(base)
                else:
                    m.imports[a.asname or a.name] = base + "." + a.name
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "eval", "globals", "vars", "setattr",
                                                                                        "__import__"):
            m.dynamic = True

    def bind(stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                m.defs[s.name] = s
                m.names.add(s.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        m.names.add(t.id)
            for f in ("body", "orelse", "finalbody"):
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    bind(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []:
                bind(h.body)
    bind(m.tree.body)
    m.names |= set(m.imports)


class Package:
    def __init__(self, repo):
        self.mods = load(repo)
        self.classes = {}       # dotted -> Class
        self.by_method = {}     # method name -> [(Class, node, kind)]
        for m in self.mods.values():
            for s in m.defs.values():
                if isinstance(s, ast.ClassDef):
                    self.classes[m.name + "." + s.name] = Class(m, s)
        for c in self.classes.values():
            self.scan_class(c)
        for c in self.classes.values():
            for b in c.node.bases:
                d = self.dotted(c.mod, b)
                k = self.resolve(d) if d else None
                if isinstance(k, Class):
                    c.bases.append(k)
                elif d in ("abc.ABC", "object", "typing.Generic"):
                    pass
                else:
                    c.open = True
            for kw in c.node.keywords:
                if kw.arg != "metaclass":
                    c.open = True
        self.children = {}
        for c in self.classes.values():
            for b in c.bases:
                self.children.setdefault(id(b), []).append(c)

    def exports(self, name, seen=()):
        """Names a module of the package offers."""
        m = self.mods[name]
        out = set(m.names) | {k.rsplit(".", 1)[1] for k in self.mods if k.startswith(name + ".") and k.count(".") == name.count(".") + 1}
        for s in m.stars:
            if s in self.mods and s not in seen:
                out |= self.exports(s, seen + (name,))
            elif s not in self.mods:
                return None
        return out

    def dotted(self, m, e):
        """Dotted name of an expression through the imports of the module."""
        if isinstance(e, ast.Name):
            if e.id in m.imports:
                return m.imports[e.id]
            if e.id in m.defs:
                return m.name + "." + e.id
            for s in m.stars:
                if s in self.mods and e.id in (self.exports(s) or ()):
                    return s + "." + e.id
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, e.value)
            return b + "." + e.attr if b else None
        return None

    def resolve(self, d, depth=0):
        """Class, function node (with its module) or module behind a dotted name."""
        if d is None or depth > 10:
            return None
        if d in self.classes:
            return self.classes[d]
        if d in self.mods:
            return self.mods[d]
        if "." not in d:
            return None
        a, b = d.rsplit(".", 1)
        if a in self.mods:
            m = self.mods[a]
            if b in m.defs:
                n = m.defs[b]
                if isinstance(n, ast.ClassDef):
                    return self.classes.get(a + "." + b)
                return (m, n)
            if b in m.imports:
                return self.resolve(m.imports[b], depth + 1)
            for s in m.stars:
                if s in self.mods:
                    r = self.resolve(s + "." + b, depth + 1)
                    if r is not None:
                        return r
            return None
        r = self.resolve(a, depth + 1)
        if isinstance(r, Module):
            return self.resolve(r.name + "." + b, depth + 1) if r.name + "." + b != d else None
        return None

    def scan_class(self, c):
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                wrapped = False
                for dec in s.decorator_list:
                    t = dec.func if isinstance(dec, ast.Call) else dec
                    n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                    if n in ("property", "abstractproperty", "cached_property", "setter", "getter", "deleter"):
                        kind = "property" if n not in ("setter", "deleter") else "setter"
                    elif n == "staticmethod":
                        kind = "static"
                    elif n == "classmethod":
                        kind = "class"
                    elif n in ("abstractmethod", "lru_cache", "cache", "wraps"):
                        pass
                    else:
                        wrapped = True
                c.attrs.add(s.name)
                if kind == "setter":
                    continue
                if wrapped:
                    kind = "wrapped"
                c.methods[s.name] = (s, kind)
                self.by_method.setdefault(s.name, []).append((c, s, kind))
                if s.name in ("__getattr__", "__getattribute__", "__setattr__"):
                    c.open = True
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        c.attrs.add(t.id)
            elif isinstance(s, ast.ClassDef):
                c.attrs.add(s.name)
            elif not isinstance(s, (ast.Expr, ast.Pass)):
                c.open = True
        if c.node.decorator_list:
            c.open = True
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if isinstance(n.value, ast.Name):
                    c.attrs.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                c.open = True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                c.open = True

    def family(self, c):
        """The class, its ancestors and its descendants."""
        up, todo = [], [c]
        while todo:
            x = todo.pop()
            if x not in up:
                up.append(x)
                todo += x.bases
        down, todo = [], [c]
        while todo:
            x = todo.pop()
            for k in self.children.get(id(x), []):
                if k not in down:
                    down.append(k)
                    todo.append(k)
        # other ancestors of the descendants (mixins)
        more = []
        for k in down:
            todo = list(k.bases)
            while todo:
                x = todo.pop()
                if x not in more:
                    more.append(x)
                    todo += x.bases
        return up + [k for k in down if k not in up] + [k for k in more if k not in up and k not in down]

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo = todo + x.bases
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k, k.methods[name]
        return None


# ---------------------------------------------------------------- signatures

def fits(fn, call, skip):
    """None if the call fits the signature, else a description. skip: leading parameters already bound."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip > len(pos) and not a.vararg:
        return "takes no bound argument"
    pos = pos[skip:]
    ndef = len(a.defaults)
    req = pos[:len(pos) - ndef] if ndef <= len(pos) else []
    kwo = [x.arg for x in a.kwonlyargs]
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    given = len(call.args)
    if given > len(pos) and not a.vararg:
        return "takes at most %d positional arguments, %d given" % (len(pos), given)
    have = set(pos[:given])
    for k in call.keywords:
        if k.arg in have:
            return "argument %r given twice" % k.arg
        if k.arg in pos or k.arg in kwo:
            have.add(k.arg)
        elif not a.kwarg:
            return "unexpected keyword argument %r" % k.arg
    miss = [x for x in req + kreq if x not in have]
    if miss:
        return "missing arguments " + ", ".join(miss)
    return None


# ---------------------------------------------------------------- walking

def functions(m):
    """(qualified name, class name or None, node) of every function of a module."""
    out = []

    def go(body, pre, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + s.name, cls, s))
                go(s.body, pre + s.name + ".", cls)
            elif isinstance(s, ast.ClassDef):
                go(s.body, pre + s.name + ".", s.name)
            else:
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(s, f, []) or [], pre, cls)
                for h in getattr(s, "handlers", []) or []:
                    go(h.body, pre, cls)
    go(m.tree.body, "", None)
    return out


def self_name(fn, cls_methods):
    a = fn.args.posonlyargs + fn.args.args
    return a[0].arg if a else None


def local_types(pkg, m, fn):
    """Local variables that are always one class of the package."""
    out, bad = {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            k = None
            if isinstance(n.value, ast.Call):
                k = pkg.resolve(pkg.dotted(m, n.value.func))
            if isinstance(k, Class) and out.get(t, k) is k:
                out[t] = k
            else:
                bad.add(t)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            pass
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
    assigned = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigned[n.targets[0].id] = assigned.get(n.targets[0].id, 0) + 1
    args = {a.arg for f in ast.walk(fn) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in
            f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    return {k: v for k, v in out.items() if k not in bad and stores.get(k) == assigned.get(k) and k not in args}


def c39(repo):
    pkg = Package(repo)
    viol = []
    cov = {"rule": "names resolve, attributes of self exist, calls inside the package fit their signatures, no property returns itself, "
                   "no method is used as a value",
           "files": [], "functions": 0, "names": 0, "attributes": 0, "calls_checked": 0, "calls_unresolved": 0, "imports": 0,
           "property_getters": 0, "obligations": 0}

    def bad(m, node, fn, what):
        viol.append({"rule": "C39", "where": "%s:%s in %s" % (m.rel, getattr(node, "lineno", "?"), fn), "what": what})

    for m in pkg.mods.values():
        cov["files"].append(m.rel)
        check_imports(pkg, m, bad, cov)
        check_names(pkg, m, bad, cov)
        for q, cls, fn in functions(m):
            cov["functions"] += 1
            c = pkg.classes.get(m.name + "." + cls) if cls else None
            check_function(pkg, m, q, c, fn, bad, cov)
        for n in m.tree.body:
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for k in ast.walk(n):
                    if isinstance(k, ast.Call):
                        check_call(pkg, m, "<module>", None, None, {}, k, bad, cov)
    cov["obligations"] = cov["names"] + cov["attributes"] + cov["calls_checked"] + cov["imports"] + cov["property_getters"]
    return viol, cov


def check_imports(pkg, m, bad, cov):
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.ImportFrom):
            continue
        base = absolute(m, n.module, n.level)
        if base.split(".")[0] != PKG:
            continue
        cov["imports"] += 1
        if base not in pkg.mods:
            bad(m, n, "<module>", "no module " + base)
            continue
        ex = pkg.exports(base)
        if ex is None or pkg.mods[base].dynamic:
            continue
        for a in n.names:
            if a.name != "*" and a.name not in ex:
                bad(m, n, "<module>", "%s has no name %s" % (base, a.name))


def check_names(pkg, m, bad, cov):
    glob = set(m.names) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__"}
    for s in m.stars:
        ex = pkg.exports(s) if s in pkg.mods else None
        if ex is None:
            return
        glob |= ex
    if m.dynamic:
        return

    def go(t):
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() and not s.is_declared_global():
                cov["names"] += 1
                if s.get_name() not in glob and not s.get_name().startswith("__"):
                    line = next((n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == s.get_name()), "?")
                    bad(m, type("N", (), {"lineno": line}), t.get_name(), "name %r is not defined" % s.get_name())
            if s.is_declared_global():
                glob.add(s.get_name())
        for k in t.get_children():
            go(k)
    go(m.table)


def guarded(fn):
    """Names of attributes that are tested with hasattr/getattr or under except AttributeError."""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1:
            if isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
        if isinstance(n, ast.Try):
            for k in n.body:
                for a in ast.walk(k):
                    if isinstance(a, ast.Attribute):
                        out.add(a.attr)
    return out


def check_function(pkg, m, q, c, fn, bad, cov):
    nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
    inner = {id(k) for n in nested if isinstance(n, ast.FunctionDef) for k in ast.walk(n) if k is not n}
    slf = None
    if c is not None:
        kind = None
        for s in c.node.body:
            if s is fn:
                kind = c.methods.get(fn.name, (None, "method"))[1]
                if kind not in ("static", "class", "wrapped"):
                    a = fn.args.posonlyargs + fn.args.args
                    slf = a[0].arg if a else None
        if slf and any(isinstance(n, ast.Name) and n.id == slf and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)):
            slf = None
    types = local_types(pkg, m, fn)
    fam = pkg.family(c) if c is not None else []
    known = set(dir(object)) | {"__dict__", "__class__", "__module__"}
    for k in fam:
        known |= k.attrs
    is_open = any(k.open for k in fam)
    guard = guarded(fn)
    called = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    operands = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp):
            operands |= {id(n.left), id(n.right)}
        elif isinstance(n, ast.UnaryOp) and not isinstance(n.op, ast.Not):
            operands.add(id(n.operand))
        elif isinstance(n, ast.Subscript):
            operands.add(id(n.value))
        elif isinstance(n, ast.Compare) and not all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in n.ops):
            operands |= {id(n.left)} | {id(x) for x in n.comparators}
        elif isinstance(n, ast.Call) and not n.keywords and isinstance(n.func, ast.Attribute):
            d = pkg.dotted(m, n.func)
            if d and d.startswith("numpy.") and d.split(".")[-1] in ("sum", "sqrt", "abs", "array", "diag", "log", "exp", "rint", "copy", "zeros_like"):
                operands |= {id(a) for a in n.args[:1]}
    for n in ast.walk(fn):
        if id(n) in inner:
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and slf and n.value.id == slf:
            cov["attributes"] += 1
            if n.attr not in known and not is_open and n.attr not in guard:
                bad(m, n, q, "%s has no attribute %r" % (c.name, n.attr))
            elif id(n) in operands and id(n) not in called and not is_open:
                kinds = {k.methods[n.attr][1] for k in fam if n.attr in k.methods}
                assigned = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr
                               for k in fam for x in ast.walk(k.node))
                if kinds and kinds <= {"method", "static", "class"} and not assigned:
                    bad(m, n, q, "method %r of %s is used as a value" % (n.attr, c.name))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            d = pkg.dotted(m, n.value)
            r = pkg.resolve(d) if d else None
            if isinstance(r, Module) and not r.dynamic:
                shadow = isinstance(n.value, ast.Name) and any(
                    isinstance(x, ast.Name) and x.id == n.value.id and isinstance(x.ctx, ast.Store) for x in ast.walk(fn))
                ex = pkg.exports(r.name)
                cov["attributes"] += 1
                if ex is not None and n.attr not in ex and not n.attr.startswith("__") and not shadow and n.attr not in guard:
                    bad(m, n, q, "module %s has no name %r" % (r.name, n.attr))
            elif isinstance(n.value, ast.Name) and n.value.id in types:
                k = types[n.value.id]
                ks = pkg.mro(k)
                if not any(x.open for x in ks) and not any(x.fields for x in ks):
                    cov["attributes"] += 1
                    names = set(dir(object)) | {"__dict__"}
                    for x in ks:
                        names |= x.attrs
                    if n.attr not in names and n.attr not in guard:
                        bad(m, n, q, "%s has no attribute %r" % (k.name, n.attr))
        if isinstance(n, ast.Call):
            check_call(pkg, m, q, c, slf, types, n, bad, cov)
    # a property that returns itself
    if c is not None and slf and c.methods.get(fn.name, (None, ""))[0] is fn:
        kind = c.methods[fn.name][1]
        if kind == "property":
            cov["property_getters"] += 1
            for s in always(fn.body):
                for n in unconditional(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == fn.name and isinstance(n.value, ast.Name) \
                            and n.value.id == slf:
                        bad(m, n, q, "property %r is defined by itself" % fn.name)
        elif kind == "method":
            for s in always(fn.body):
                for n in unconditional(s):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == fn.name and \
                            isinstance(n.func.value, ast.Name) and n.func.value.id == slf:
                        bad(m, n, q, "method %r always calls itself" % fn.name)


def always(body):
    """Statements that run on every call, up to the first one that can leave."""
    out = []
    for s in body:
        if isinstance(s, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return)):
            out.append(s)
            if isinstance(s, ast.Return):
                break
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef)):
            continue
        elif isinstance(s, ast.With):
            out += s.items and [ast.Expr(i.context_expr) for i in s.items]
            out += always(s.body)
            break
        elif isinstance(s, (ast.If, ast.While)):
            out.append(ast.Expr(s.test))
            break
        elif isinstance(s, ast.For):
            out.append(ast.Expr(s.iter))
            break
        else:
            break
    return out


def unconditional(n):
    """Sub-expressions that are always evaluated."""
    yield n
    if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            yield from unconditional(n.generators[0].iter)
        return
    if isinstance(n, ast.IfExp):
        yield from unconditional(n.test)
        return
    if isinstance(n, ast.BoolOp):
        yield from unconditional(n.values[0])
        return
    for k in ast.iter_child_nodes(n):
        yield from unconditional(k)


def check_call(pkg, m, q, c, slf, types, n, bad, cov):
    f = n.func
    # self.method(...), super().method(...), cls(...)
    if isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and slf and v.id == slf:
            fam = pkg.family(c)
            if any(k.open for k in fam):
                cov["calls_unresolved"] += 1
                return
            hit = pkg.method(c, f.attr)
            assigned = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == f.attr
                           for k in fam for x in ast.walk(k.node))
            if assigned:
                cov["calls_unresolved"] += 1
                return
            cands = [k.methods[f.attr] for k in fam if f.attr in k.methods]
            if not cands:
                cov["calls_unresolved"] += 1
                return
            return check_candidates(m, q, n, cands, bad, cov, f.attr)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and c is not None:
            for b in c.bases:
                hit = pkg.method(b, f.attr)
                if hit:
                    return check_candidates(m, q, n, [hit[1]], bad, cov, f.attr)
            if c.bases and not c.open and all(not k.open for b in c.bases for k in pkg.mro(b)) and f.attr not in dir(object):
                bad(m, n, q, "no base class of %s has a method %r" % (c.name, f.attr))
            return
        if isinstance(v, ast.Name) and v.id in types:
            hit = pkg.method(types[v.id], f.attr)
            if hit:
                return check_candidates(m, q, n, [hit[1]], bad, cov, f.attr)
    d = pkg.dotted(m, f)
    shadow = isinstance(f, ast.Name) and q != "<module>" and is_local(m, q, f.id)
    r = pkg.resolve(d) if d and not shadow else None
    if isinstance(r, tuple):
        fn = r[1]
        if fn.decorator_list and not all(deco_name(x) in ("jit", "njit", "vectorize", "lru_cache", "wraps") for x in fn.decorator_list):
            cov["calls_unresolved"] += 1
            return
        cov["calls_checked"] += 1
        e = fits(fn, n, 0)
        if e:
            bad(m, n, q, "call of %s: %s" % (fn.name, e))
        return
    if isinstance(r, Class):
        hit = pkg.method(r, "__init__")
        if any(k.open for k in pkg.mro(r)) or pkg.method(r, "__new__"):
            cov["calls_unresolved"] += 1
            return
        cov["calls_checked"] += 1
        if hit is None:
            if n.args or n.keywords:
                bad(m, n, q, "%s takes no arguments" % r.name)
            return
        e = fits(hit[1][0], n, 1)
        if e:
            bad(m, n, q, "construction of %s: %s" % (r.name, e))
        return
    # Class.method(...)
    if isinstance(f, ast.Attribute):
        dv = pkg.dotted(m, f.value)
        k = pkg.resolve(dv) if dv else None
        if isinstance(k, Class):
            hit = pkg.method(k, f.attr)
            if hit:
                node, kind = hit[1]
                if kind in ("static", "class", "method"):
                    cov["calls_checked"] += 1
                    e = fits(node, n, 1 if kind == "class" else 0)
                    if e:
                        bad(m, n, q, "call of %s.%s: %s" % (k.name, f.attr, e))
                return
            if not any(x.open for x in pkg.mro(k)) and f.attr not in set().union(*[x.attrs for x in pkg.mro(k)]) and f.attr not in dir(type):
                bad(m, n, q, "%s has no attribute %r" % (k.name, f.attr))
            return
        if dv is None and not (isinstance(f.value, ast.Name) and f.value.id in m.imports):
            # receiver of unknown type: a method name only the package has
            cands = [(node, kind) for _, node, kind in pkg.by_method.get(f.attr, [])]
            if cands and f.attr not in COMMON and f.attr not in FOREIGN and not f.attr.startswith("__"):
                return check_candidates(m, q, n, cands, bad, cov, f.attr)
    cov["calls_unresolved"] += 1


def deco_name(x):
    t = x.func if isinstance(x, ast.Call) else x
    return t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")


def is_local(m, q, name):
    """Is the name bound inside of the function?"""
    for qq, _, fn in functions(m):
        if qq == q or q.startswith(qq + "."):
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.arg) and n.arg == name:
                    return True
                if isinstance(n, ast.FunctionDef) and n is not fn and n.name == name:
                    return True
    return False


def check_candidates(m, q, n, cands, bad, cov, name):
    es = []
    for node, kind in cands:
        if kind in ("property", "wrapped"):
            cov["calls_unresolved"] += 1
            return
        es.append(fits(node, n, 0 if kind == "static" else 1))
    cov["calls_checked"] += 1
    if es and all(es):
        bad(m, n, q, "call of %s: %s" % (name, es[0]))


# ---------------------------------------------------------------- C38

GENERATORS = {"seed", "set_state", "get_state", "RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "PCG64DXSM", "MT19937",
              "Philox", "SFC64", "BitGenerator", "get_bit_generator", "set_bit_generator"}
STDLIB_GENERATORS = {"seed", "setstate", "getstate", "Random", "SystemRandom"}


def c38(repo):
    pkg = Package(repo)
    viol = []
    cov = {"rule": "no function seeds, saves, restores or creates a random generator; random numbers are drawn from the global numpy "
                   "generator and only in functions reachable from generate_toy_dataset",
           "files": sorted(m.rel for m in pkg.mods.values()), "draw_sites": [], "functions": 0, "expressions": 0, "obligations": 0}

    def bad(m, node, fn, what):
        viol.append({"rule": "C38", "where": "%s:%s in %s" % (m.rel, node.lineno, fn), "what": what})

    reach = toy_functions(pkg)
    for m in pkg.mods.values():
        scopes = [("<module>", None)] + [(q, fn) for q, _, fn in functions(m)]
        owner = {}
        for q, fn in scopes[1:]:
            for k in ast.walk(fn):
                owner[id(k)] = (q, fn)     # inner functions come later and win
        cov["functions"] += len(scopes) - 1
        called = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
        for n in ast.walk(m.tree):
            q, fn = owner.get(id(n), ("<module>", None))
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                cov["expressions"] += 1
                d = pkg.dotted(m, n)
                if not d:
                    continue
                p = d.split(".")
                draw = None
                if p[0] == "numpy" and len(p) > 2 and p[1] == "random":
                    if p[2] == "mtrand" and len(p) > 3:
                        p = ["numpy", "random"] + p[3:]
                    if p[2] in GENERATORS:
                        bad(m, n, q, "use of numpy.random." + p[2])
                    elif p[2] not in ("mtrand", "_rand", "bit_generator"):
                        draw = d
                elif p[0] == "random" and len(p) > 1:
                    if p[1] in STDLIB_GENERATORS:
                        bad(m, n, q, "use of random." + p[1])
                    else:
                        bad(m, n, q, "numbers of the generator of the standard library: " + d)
                elif p[0] in ("secrets",) and len(p) > 1 or d in ("os.urandom", "uuid.uuid4"):
                    bad(m, n, q, "random numbers that cannot be seeded: " + d)
                elif p[0] == "scipy" and len(p) > 1 and p[1] == "stats" and p[-1] == "rvs":
                    draw = d
                elif p[:3] == ["scipy", "stats", "sampling"]:
                    draw = d
                if draw:
                    cov["draw_sites"].append("%s:%d %s in %s" % (m.rel, n.lineno, draw, q))
                    cov["obligations"] += 1
                    # a reference that is not called draws nothing (what happens to it, the counting drivers see)
                    if id(n) in called and (fn is None or id(fn) not in reach):
                        bad(m, n, q, "random numbers are drawn outside of toy data sets: " + draw)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
                for k in n.keywords:
                    if k.arg == "random_state" and not passed_through(k.value, fn):
                        bad(m, n, q, "draw from a generator of its own")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "random_state" and not isinstance(n.value, ast.Name):
                bad(m, n, q, "the generator of a distribution is replaced")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "random_state" and \
                    (pkg.dotted(m, n.value) or "").startswith("scipy.stats"):
                bad(m, n, q, "the generator of a distribution is replaced")
    cov["obligations"] += cov["functions"]
    return viol, cov


def passed_through(v, fn):
    """None, or a parameter of the function whose default is None."""
    if isinstance(v, ast.Constant) and v.value is None:
        return True
    if isinstance(v, ast.Name) and fn is not None:
        a = fn.args
        pos = a.posonlyargs + a.args
        dv = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dv.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        d = dv.get(v.id)
        return isinstance(d, ast.Constant) and d.value is None
    return False


def toy_functions(pkg):
    """Functions that may run while a toy data set is generated (by name, over-approximate)."""
    by_name = {}
    for m in pkg.mods.values():
        for q, cls, fn in functions(m):
            by_name.setdefault(fn.name, []).append(fn)
    todo = list(by_name.get("generate_toy_dataset", []))
    seen = set()
    while todo:
        fn = todo.pop()
        if id(fn) in seen:
            continue
        seen.add(id(fn))
        for n in ast.walk(fn):
            name = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if isinstance(n, ast.FunctionDef) and n is not fn:
                todo.append(n)
            if name in by_name:
                todo += by_name[name]
    return seen


RULES = {"C38": c38, "C39": c39}
