"""Model of the Python builtins and of the standard library parts in use."""
import terms as T
from terms import Poly, P, ZERO, ONE, add, mul, neg, atom, Undecided
import arrays as A
from arrays import ArrC
from values import *
from core import Dead, NeedFork
from ops import is_np, base_ty, psub


def bound(name, f, o):
    return Built(name, lambda ip, *a, **k: f(ip, o, *a, **k))


# ---------------------------------------------------------------- list

def l_items(ip, o):
    return list(ip.content(o).items)


def list_append(ip, o, x):
    if isinstance(x, (MapSeg, PreSeg)):
        raise Undecided("append of a sequence")
    ip.put(o, ListC(tuple(l_items(ip, o)) + (x,)))
    return NONE


def list_extend(ip, o, it):
    ip.put(o, ListC(tuple(l_items(ip, o)) + tuple(ip.items(it))))
    return NONE


def list_insert(ip, o, i, x):
    it = l_items(ip, o)
    if any(isinstance(y, (MapSeg, PreSeg)) for y in it):
        if ip.number(i) is ZERO:
            ip.put(o, ListC([x] + it))
            return NONE
        raise Undecided("insert into a symbolic list")
    k = ip.number(i).const
    if k is None:
        raise Undecided("symbolic insert")
    it.insert(int(k), x)
    ip.put(o, ListC(it))
    return NONE


def list_pop(ip, o, i=None):
    it = l_items(ip, o)
    if any(isinstance(y, (MapSeg, PreSeg)) for y in it):
        raise Undecided("pop from a symbolic list")
    if not it:
        ip.py_raise("IndexError", "pop from empty list")
    k = -1 if i is None else ip.number(i).const
    if k is None:
        raise Undecided("symbolic pop")
    try:
        v = it.pop(int(k))
    except IndexError:
        ip.py_raise("IndexError", "pop index out of range")
    ip.put(o, ListC(it))
    return v


def seq_index(ip, o, x):
    o = ip.res(o)
    it = ip.items(o)
    off = ZERO
    pos = ZERO
    left = ONE          # not found so far
    for y in it:
        if isinstance(y, MapSeg):
            if len(y.vals) != 1:
                raise Undecided("index in an interleaved list")
            c = ip.simp(ip.eq(y.vals[0], x))
            if c is ZERO:
                off = add(off, y.n)
                continue
            # unique match inside the segment
            found = T.any_of(y.n, y.idx, c)
            at = T.make_sum(y.n, y.idx, mul(c, atom(y.idx)))
            if not (len(c.t) == 1 and all(a.kind == "eq" for a, _ in c.t[0][0])):
                raise Undecided("index of a possibly repeated element")
            pos = add(pos, mul(left, add(at, mul(found, off))))
            left = mul(left, T.c_not(found))
            off = add(off, y.n)
            continue
        if isinstance(y, PreSeg):
            raise Undecided("loop carried list")
        c = ip.simp(ip.eq(y, x))
        pos = add(pos, mul(mul(left, c), off))
        left = ip.simp(mul(left, T.c_not(c)))
        off = add(off, ONE)
        if left is ZERO:
            break
    ip.py_raise("ValueError", "value is not in the sequence", left)
    return Num(pos, "int")


def seq_count(ip, o, x):
    r = ZERO
    for y in ip.items(o):
        if isinstance(y, MapSeg):
            for v in y.vals:
                r = add(r, T.make_sum(y.n, y.idx, ip.eq(v, x)))
        else:
            r = add(r, ip.eq(y, x))
    return Num(r, "int")


def list_remove(ip, o, x):
    it = l_items(ip, o)
    for k, y in enumerate(it):
        if isinstance(y, (MapSeg, PreSeg)):
            raise Undecided("remove from a symbolic list")
        if ip.decide(ip.eq(y, x)):
            ip.put(o, ListC(it[:k] + it[k + 1:]))
            return NONE
    ip.py_raise("ValueError", "list.remove(x): x not in list")


def list_reverse(ip, o):
    ip.put(o, ListC(rev_items(ip, l_items(ip, o))))
    return NONE


def rev_items(ip, it):
    out = []
    for x in reversed(it):
        if isinstance(x, MapSeg):
            mp = {x.idx: psub(psub(x.n, ONE), atom(x.idx))}
            out.append(MapSeg(x.n, x.idx, [ip.sub_val(v, mp) for v in reversed(x.vals)]))
        else:
            out.append(x)
    return out


def list_sort(ip, o, key=NONE, reverse=FALSE):
    ip.put(o, ListC(do_sort(ip, l_items(ip, o), key, reverse)))
    return NONE


def do_sort(ip, it, key, reverse):
    if any(isinstance(y, (MapSeg, PreSeg)) for y in it):
        raise Undecided("sorting a symbolic list")
    ks = []
    for y in it:
        k = ip.res(y if ip.res(key) is NONE else ip.call(key, [y], {}))
        ks.append(k)
    rev = ip.decide(ip.truth(reverse))
    cut = distinct_prefix(ip, ks)
    ks = [sort_key(ip, Tup(k.items[:cut]) if cut is not None else k) for k in ks]
    order = sorted(range(len(it)), key=lambda i: ks[i], reverse=rev)
    return [it[i] for i in order]


def distinct_prefix(ip, ks):
    """Length of the prefix of tuples that already tells all of them apart (None: not tuples)."""
    if not ks or not all(isinstance(k, (Tup, NT)) for k in ks):
        return None
    n = min(len(k.items) for k in ks)
    for m in range(1, n):
        try:
            pre = [sort_key(ip, Tup(k.items[:m])) for k in ks]
        except Undecided:
            return None
        if len(set(pre)) == len(pre):
            return m
    return None


def sort_key(ip, k):
    k = ip.res(k)
    if isinstance(k, Num) and k.p.const is not None:
        return k.p.const
    if isinstance(k, Str) and k.lit is not None:
        return k.lit
    if isinstance(k, (Tup, NT)):
        return tuple(sort_key(ip, x) for x in k.items)
    raise Undecided("sorting symbolic values")


def list_copy(ip, o):
    return ip.new_list(l_items(ip, o))


def list_clear(ip, o):
    ip.put(o, ListC(()))
    return NONE


LIST = dict(append=list_append, extend=list_extend, insert=list_insert, pop=list_pop, index=seq_index, count=seq_count,
            remove=list_remove, reverse=list_reverse, sort=list_sort, copy=list_copy, clear=list_clear)


# ---------------------------------------------------------------- dict

def dict_get(ip, o, k, d=NONE):
    ip.check_hashable(k)
    e = ip.dict_find(ip.content(o), ip.res(k))
    return d if e is None else e[1]


def dict_keys(ip, o):
    r = Ref(ip.new("list", ListC([k for k, _ in ip.content(o).items])))
    ip.info[r.cell].kind = "keys"
    return r


def dict_values(ip, o):
    return Ref(ip.new("list", ListC([v for _, v in ip.content(o).items])))


def dict_itemsv(ip, o):
    return Ref(ip.new("list", ListC([Tup([k, v]) for k, v in ip.content(o).items])))


def dict_pop(ip, o, k, d=None):
    c = ip.content(o)
    e = ip.dict_find(c, ip.res(k))
    if e is None:
        if d is None:
            ip.py_raise("KeyError", str(k))
        return d
    ip.put(o, DictC([x for x in c.items if x[0] is not e[0]], c.default))
    return e[1]


def dict_setdefault(ip, o, k, d=NONE):
    c = ip.content(o)
    e = ip.dict_find(c, ip.res(k))
    if e is None:
        ip.setitem(o, k, d)
        return d
    return e[1]


def dict_update(ip, args, kw):
    o = args[0]
    if len(args) > 1:
        src = ip.res(args[1])
        c = ip.content(src) if isinstance(src, Ref) else None
        if isinstance(c, DictC):
            for k, v in c.items:
                ip.setitem(o, k, v)
        else:
            for x in ip.concrete(src):
                k, v = ip.concrete(x)
                ip.setitem(o, k, v)
    for k, v in kw.items():
        ip.setitem(o, Str(k), v)
    return NONE


def dict_copy(ip, o):
    c = ip.content(o)
    return ip.new_dict(c.items, c.default)


def dict_clear(ip, o):
    ip.put(o, DictC((), ip.content(o).default))
    return NONE


def dict_move_to_end(ip, o, k, last=TRUE):
    c = ip.content(o)
    e = ip.dict_find(c, ip.res(k))
    if e is None:
        ip.py_raise("KeyError", str(k))
    rest = [x for x in c.items if x[0] is not e[0]]
    ip.put(o, DictC(rest + [e] if ip.decide(ip.truth(last)) else [e] + rest, c.default))
    return NONE


def dict_popitem(ip, o, last=TRUE):
    c = ip.content(o)
    if not c.items:
        ip.py_raise("KeyError", "dictionary is empty")
    if ip.decide(ip.truth(last)):
        e, rest = c.items[-1], c.items[:-1]
    else:
        e, rest = c.items[0], c.items[1:]
    ip.put(o, DictC(rest, c.default))
    return Tup(e)


DICT = dict(get=dict_get, keys=dict_keys, values=dict_values, items=dict_itemsv, pop=dict_pop, setdefault=dict_setdefault,
            copy=dict_copy, clear=dict_clear, move_to_end=dict_move_to_end, popitem=dict_popitem)


# ---------------------------------------------------------------- set

def set_discard(ip, o, x):
    c = ip.content(o)
    ip.put(o, SetC([y for y in c.items if not ip.decide(ip.eq(y, x))]))
    return NONE


def set_remove(ip, o, x):
    if not ip.decide(ip.contains(o, x)):
        ip.py_raise("KeyError", str(x))
    return set_discard(ip, o, x)


def set_addm(ip, o, x):
    ip.set_add(o, x)
    return NONE


def to_set(ip, it=None):
    r = Ref(ip.new("set", SetC(())))
    if it is not None:
        for x in ip.concrete(it, "set"):
            ip.set_add(r, x)
    return r


def set_bin(op):
    def f(ip, o, *others):
        r = o
        for x in others:
            r = ip.set_op(op, ip.content(r), ip.content(to_set(ip, x)))
        return r
    return f


def set_clear(ip, o):
    ip.put(o, SetC(()))
    return NONE


def set_disjoint(ip, o, x):
    return FALSE if ip.content(set_bin("BitAnd")(ip, o, x)).items else TRUE


def set_issubset(ip, o, x):
    return ip.compare_op("LtE", o, to_set(ip, x))


SET = dict(add=set_addm, discard=set_discard, remove=set_remove, union=set_bin("BitOr"), intersection=set_bin("BitAnd"),
           difference=set_bin("Sub"), issubset=set_issubset, update=lambda ip, o, it: [ip.set_add(o, x) for x in ip.concrete(it)] and NONE or NONE,
           copy=lambda ip, o: Ref(ip.new("set", ip.content(o))), clear=set_clear,
           isdisjoint=set_disjoint)


# ---------------------------------------------------------------- str

def str_lower(ip, o):
    if o.lit is None:
        raise Undecided("case of a symbolic string")
    return Str(o.lit.lower())


def lit(ip, v):
    v = ip.res(v)
    if not isinstance(v, Str):
        ip.py_raise("TypeError", "a string is required")
    if v.lit is None:
        raise Undecided("symbolic string")
    return v.lit


def str_join(ip, o, it):
    out = []
    for k, x in enumerate(ip.items(it)):
        if isinstance(x, (MapSeg, PreSeg)):
            return Str("<joined>")
        x = ip.res(x)
        if not isinstance(x, Str):
            ip.py_raise("TypeError", "sequence item: expected str instance")
        if k:
            out.append(o)
        out.append(x)
    return Str(*out)


def str_simple(name):
    def f(ip, o, *a):
        r = getattr(lit(ip, o), name)(*[lit(ip, x) if isinstance(ip.res(x), Str) else int(ip.number(x).const) for x in a])
        if isinstance(r, str):
            return Str(r)
        if isinstance(r, bool):
            return TRUE if r else FALSE
        if isinstance(r, int):
            return intv(r)
        if isinstance(r, list):
            return ip.new_list([Str(x) for x in r])
        if isinstance(r, tuple):
            return Tup([Str(x) for x in r])
        raise Undecided("str." + name)
    return f


def str_endswith(ip, o, suf):
    s = ip.res(suf)
    if isinstance(s, Tup):
        r = ZERO
        for x in s.items:
            r = T.c_or(r, ip.truth(str_endswith(ip, o, x)))
        return boolv(r)
    s = lit(ip, s)
    if o.lit is not None:
        return TRUE if o.lit.endswith(s) else FALSE
    last = o.parts[-1]
    if isinstance(last, str):
        if last.endswith(s):
            return TRUE
        if not s.endswith(last):
            return FALSE
    elif isinstance(last, Num) and s and not s[-1].isdigit():
        return FALSE
    raise Undecided("suffix of a symbolic string")


def str_startswith(ip, o, pre):
    s = ip.res(pre)
    if isinstance(s, Tup):
        r = ZERO
        for x in s.items:
            r = T.c_or(r, ip.truth(str_startswith(ip, o, x)))
        return boolv(r)
    s = lit(ip, s)
    if o.lit is not None:
        return TRUE if o.lit.startswith(s) else FALSE
    first = o.parts[0]
    if isinstance(first, str):
        if first.startswith(s):
            return TRUE
        if not s.startswith(first):
            return FALSE
    raise Undecided("prefix of a symbolic string")


def str_format(ip, args, kw):
    o = args[0]
    if o.lit is None:
        raise Undecided("format of a symbolic string")
    import string
    out = []
    k = 0
    for text, field, spec, conv in string.Formatter().parse(o.lit):
        out.append(text)
        if field is None:
            continue
        if field == "":
            v = args[1 + k]
            k += 1
        elif field.isdigit():
            v = args[1 + int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Undecided("format field")
        out.append(ip.to_str(v))
    return Str(*out)


STR = {n: str_simple(n) for n in ("upper", "strip", "lstrip", "rstrip", "split", "rsplit", "replace", "title", "find", "capitalize",
                                  "isdigit", "count", "partition", "rpartition", "index", "removesuffix", "removeprefix", "casefold",
                                  "swapcase", "splitlines", "isidentifier", "isalnum", "isalpha", "zfill", "ljust", "rjust", "center")}
STR.update(lower=str_lower, join=str_join, endswith=str_endswith, startswith=str_startswith)


# ---------------------------------------------------------------- builtins

def b_len(ip, x):
    return ip.len_of(x)


def zip_items(ip, its):
    """Zip lists of items with possibly symbolic segments."""
    if not its:
        return []
    its = [list(x) for x in its]
    out = []
    while True:
        if any(not x for x in its):
            return out
        heads = [x[0] for x in its]
        if any(isinstance(h, PreSeg) for h in heads):
            raise Undecided("loop carried list")
        if all(not isinstance(h, MapSeg) for h in heads):
            out.append(Tup(heads))
            for x in its:
                x.pop(0)
            continue
        if all(isinstance(h, MapSeg) for h in heads):
            if any(len(h.vals) != 1 for h in heads):
                raise Undecided("interleaved sequence")
            n = heads[0].n
            if all(h.n is n for h in heads):
                i = heads[0].idx
                out.append(MapSeg(n, i, [Tup([ip.sub_val(h.vals[0], {h.idx: atom(i)}) for h in heads])]))
                for x in its:
                    x.pop(0)
                continue
            if all(len(x) == 1 for x in its):
                # shortest wins if decided
                best = heads[0]
                for h in heads[1:]:
                    if A.le_(h.n, best.n) is True:
                        best = h
                    elif A.le_(best.n, h.n) is not True:
                        raise Undecided("lengths of zipped sequences")
                i = best.idx
                out.append(MapSeg(best.n, i, [Tup([ip.sub_val(h.vals[0], {h.idx: atom(i)}) for h in heads])]))
                return out
            mins = heads[0].n
            for h in heads[1:]:
                if A.le_(h.n, mins) is True:
                    mins = h.n
                elif A.le_(mins, h.n) is not True:
                    raise Undecided("lengths of zipped sequences")
            new = []
            i = T.fresh_idx(mins)
            tup = []
            for x, h in zip(its, heads):
                tup.append(ip.sub_val(h.vals[0], {h.idx: atom(i)}))
                x.pop(0)
                if h.n is not mins:
                    r = psub(h.n, mins)
                    j = T.fresh_idx(r)
                    x.insert(0, MapSeg(r, j, [ip.sub_val(h.vals[0], {h.idx: add(atom(j), mins)})]))
            out.append(MapSeg(mins, i, [Tup(tup)]))
            continue
        # mixture: peel one element off the symbolic heads
        for x, h in zip(its, heads):
            if isinstance(h, MapSeg):
                if len(h.vals) != 1 or T.sign_lt0(neg(h.n)) is not True:
                    raise Undecided("zip of differently structured sequences")
                r = psub(h.n, ONE)
                x.pop(0)
                rest = []
                if r is not ZERO:
                    j = T.fresh_idx(r)
                    rest = [MapSeg(r, j, [ip.sub_val(h.vals[0], {h.idx: add(atom(j), ONE)})])]
                x[:0] = [ip.sub_val(h.vals[0], {h.idx: ZERO})] + rest


def infinite(ip, x):
    x = ip.res(x)
    return isinstance(x, Ext) and x.name.startswith("<count>")


def b_zip(ip, *its, strict=FALSE):
    r = zip_items(ip, [ip.items(x) for x in its])
    return Ref(ip.new("iter", IterC(r)))


def enum_items(ip, items, start):
    out = []
    off = start
    for x in items:
        if isinstance(x, PreSeg):
            raise Undecided("loop carried list")
        if isinstance(x, MapSeg):
            if len(x.vals) != 1:
                raise Undecided("interleaved sequence")
            out.append(MapSeg(x.n, x.idx, [Tup([Num(add(off, atom(x.idx)), "int"), x.vals[0]])]))
            off = add(off, x.n)
        else:
            out.append(Tup([Num(off, "int"), x]))
            off = add(off, ONE)
    return out


def b_enumerate(ip, it, start=intv(0)):
    return Ref(ip.new("iter", IterC(enum_items(ip, ip.items(it), ip.number(start)))))


def map_seg(ip, items, f):
    """Apply f to every element (symbolic segments once, effect free)."""
    out = Ref(ip.new("list", ListC(())))
    cur = {}

    def bind(v):
        cur["v"] = v

    def body():
        r = f(cur["v"])
        ip.put(out, ListC(ip.content(out).items + (r,)))
    ip.run_loop(items, bind, body)
    if ip.gate is ZERO:
        raise Dead()
    return list(ip.content(out).items)


def b_map(ip, f, *its):
    if len(its) == 1:
        r = map_seg(ip, ip.items(its[0]), lambda v: ip.call(f, [v], {}))
    else:
        r = map_seg(ip, zip_items(ip, [ip.items(x) for x in its]), lambda v: ip.call(f, list(v.items), {}))
    return Ref(ip.new("iter", IterC(r)))


def b_filter(ip, f, it):
    out = []
    for x in ip.concrete(it, "filter"):
        c = ip.truth(x if ip.res(f) is NONE else ip.call(f, [x], {}))
        if ip.decide(c):
            out.append(x)
    return Ref(ip.new("iter", IterC(out)))


def b_sum(ip, it, start=intv(0)):
    it = ip.res(it)
    if isinstance(it, ArrV):
        a = ip.arr(it)
        if a.ndim == 1:
            return ip.binop("Add", ip.result(A.sum_axis(a, 0)), start)
        return ip.binop("Add", ip.result(A.sum_axis(a, 0)), start)
    acc = ip.res(start)
    for x in ip.items(it):
        if isinstance(x, PreSeg):
            raise Undecided("loop carried list")
        if isinstance(x, MapSeg):
            for v in x.vals:
                acc = ip.binop("Add", acc, sum_family(ip, x.n, x.idx, v))
        else:
            acc = ip.binop("Add", acc, x)
    return acc


def sum_family(ip, n, idx, v):
    v = ip.res(v)
    if isinstance(v, Num):
        return Num(T.make_sum(n, idx, v.p), "int" if v.ty == "bool" else v.ty)
    if isinstance(v, ArrV):
        a = ip.arr(v)
        return ip.new_arr(A.fmap(lambda q: T.make_sum(n, idx, q), a))
    raise Undecided("sum over a symbolic family")


def b_anyall(isany):
    def f(ip, it):
        r = ZERO
        for x in ip.items(it):
            if isinstance(x, PreSeg):
                raise Undecided("loop carried list")
            if isinstance(x, MapSeg):
                for v in x.vals:
                    c = ip.truth(v)
                    r = T.c_or(r, T.any_of(x.n, x.idx, c if isany else T.c_not(c)))
            else:
                c = ip.truth(x)
                r = T.c_or(r, c if isany else T.c_not(c))
        return boolv(r if isany else T.c_not(r))
    return f


def b_minmax(name):
    def f(ip, args, kw):
        key = kw.get("key", NONE)
        if len(args) == 1:
            v = ip.res(args[0])
            if isinstance(v, ArrV):
                return ip.call(ip.getattr(v, name), [], {})
            items = ip.concrete(v, name)
        else:
            items = args
        if not items:
            if "default" in kw:
                return kw["default"]
            ip.py_raise("ValueError", f"{name}() arg is an empty sequence")
        best = items[0]
        kb = ip.res(best if ip.res(key) is NONE else ip.call(key, [best], {}))
        for x in items[1:]:
            kx = ip.res(x if ip.res(key) is NONE else ip.call(key, [x], {}))
            c = ip.truth(ip.compare_op("Lt" if name == "min" else "Gt", kx, kb))
            best = ip.mk_ite(c, x, best)
            kb = ip.mk_ite(c, kx, kb)
        return best
    return f


def b_range(ip, a, b=None, c=None):
    for x in (a, b, c):
        if x is not None:
            v = ip.res(x)
            if isinstance(v, ArrV):
                continue
            if not isinstance(v, Num) or base_ty(v.ty) == "float":
                ip.py_raise("TypeError", f"'{ip.type_of(v).name}' object cannot be interpreted as an integer")
    if b is None:
        return RangeV(intv(0), Num(ip.number(a), "int"), intv(1))
    return RangeV(Num(ip.number(a), "int"), Num(ip.number(b), "int"), intv(1) if c is None else Num(ip.number(c), "int"))


def b_sorted(ip, it, key=NONE, reverse=FALSE):
    return ip.new_list(do_sort(ip, ip.items(it), key, reverse))


def b_reversed(ip, it):
    return Ref(ip.new("iter", IterC(rev_items(ip, ip.items(it)))))


def b_isinstance(ip, v, k):
    v2 = v
    if isinstance(v, Ite):
        a = ip.isinstance(v.a, k) if v.a is not UNDEF else None
        b = ip.isinstance(v.b, k) if v.b is not UNDEF else None
        if a is not None and b is not None and not isinstance(v.a, Ite) and not isinstance(v.b, Ite):
            return boolv(T.ite(ip.simp(v.c), a, b))
    return boolv(ip.isinstance(ip.res(v2), k))


def b_issubclass(ip, a, b):
    a, b = ip.res(a), ip.res(b)
    bs = b.items if isinstance(b, Tup) else [b]
    return boolv(ONE if isinstance(a, Cls) and any(isinstance(x, Cls) and a.is_sub(x) for x in bs) else ZERO)


def quiet_attr(ip, o, n):
    """Attribute or None, swallowing AttributeError raised by it."""
    nr = len(ip.raises)
    g = ip.gate
    st = dict(ip.state)
    try:
        return ip.getattr_opt(o, n)
    except Dead:
        rs = ip.raises[nr:]
        if len(rs) == 1 and ip.exc_cls(rs[0][1]).is_sub(ip.types["AttributeError"]):
            del ip.raises[nr:]
            ip.gate = g
            ip.state = st
            return None
        raise


def b_hasattr(ip, o, n):
    if quiet_attr(ip, o, lit(ip, n)) is not None:
        return TRUE
    ip.known_attr(o, lit(ip, n))
    return FALSE


def b_getattr(ip, o, n, d=None):
    if d is None:
        return ip.getattr(o, lit(ip, n))
    v = quiet_attr(ip, o, lit(ip, n))
    if v is None:
        ip.known_attr(o, lit(ip, n))
    return d if v is None else v


def b_setattr(ip, o, n, v):
    ip.setattr(o, lit(ip, n), v)
    return NONE


def b_next(ip, it, d=None):
    it = ip.res(it)
    c = ip.content(it) if isinstance(it, Ref) else None
    if isinstance(c, ObjC):
        return ip.call(ip.getattr(it, "__next__"), [], {})
    if not isinstance(c, IterC):
        if isinstance(it, Ext):
            raise Undecided("next of " + it.name)
        ip.py_raise("TypeError", f"'{ip.type_of(it).name}' object is not an iterator")
    if not c.items:
        if d is not None:
            return d
        ip.py_raise("StopIteration")
    h = c.items[0]
    if isinstance(h, MapSeg):
        if len(h.vals) != 1 or T.sign_lt0(neg(h.n)) is not True:
            raise Undecided("next of a symbolic iterator")
        r = psub(h.n, ONE)
        j = T.fresh_idx(r)
        rest = (MapSeg(r, j, [ip.sub_val(h.vals[0], {h.idx: add(atom(j), ONE)})]),)
        ip.put(it, IterC(rest + c.items[1:]))
        return ip.sub_val(h.vals[0], {h.idx: ZERO})
    ip.put(it, IterC(c.items[1:]))
    return h


def b_iter(ip, x):
    x = ip.res(x)
    if isinstance(x, Ref) and isinstance(ip.content(x), IterC):
        return x
    return Ref(ip.new("iter", IterC(ip.items(x))))


def b_abs(ip, x):
    x = ip.res(x)
    if isinstance(x, Num):
        return Num(T.fn("abs", x.p), "int" if x.ty == "bool" else x.ty)
    if isinstance(x, ArrV):
        return ip.result(A.fmap(lambda p: T.fn("abs", p), ip.arr(x)))
    if isinstance(x, MaskedV):
        return ip.call(Ext("numpy.abs"), [x], {})
    if isinstance(x, Ref) and isinstance(ip.content(x), ObjC):
        m = ip.getattr_opt(x, "__abs__")
        if m is not None:
            return ip.call(m, [], {})
    ip.py_raise("TypeError", "bad operand type for abs()")


def b_round(ip, x, n=NONE):
    x = ip.res(x)
    n = ip.res(n)
    if n is NONE:
        return Num(T.fn("rint", ip.number(x)), "int")
    return Num(T.fn("round", ip.number(x), ip.number(n)), x.ty)


def to_float(ip, x=None):
    if x is None:
        return Num(ZERO, "float")
    x = ip.res(x)
    if isinstance(x, Str):
        s = (x.lit or "").strip().lower()
        if s in ("inf", "-inf", "nan"):
            return Num(T.num(float(s)), "float")
        try:
            return Num(T.num(float(s)), "float")
        except ValueError:
            ip.py_raise("ValueError", "could not convert string to float")
    return Num(ip.number(x), "float")


def to_int(ip, x=None):
    if x is None:
        return intv(0)
    x = ip.res(x)
    if isinstance(x, Str):
        try:
            return intv(int(x.lit))
        except (ValueError, TypeError):
            ip.py_raise("ValueError", "invalid literal for int()")
    p = ip.number(x)
    return Num(p if T.is_int(p) else T.fn("trunc", p), "int")


def to_bool(ip, x=FALSE):
    return boolv(ip.truth(x))


def to_str(ip, x=Str("")):
    return ip.to_str(x)


def to_list(ip, it=None):
    return ip.new_list(() if it is None else ip.items(it))


def to_tuple(ip, it=None):
    return Tup(() if it is None else ip.items(it))


def mk_dict(kind):
    def f(ip, args, kw):
        r = ip.new_dict(())
        if kind:
            ip.info[r.cell].kind = kind
        dict_update(ip, [r] + list(args), kw)
        return r
    return f


def to_slice(ip, a, b=None, c=None):
    if b is None:
        return SliceV(NONE, a, NONE)
    return SliceV(a, b, c if c is not None else NONE)


def b_type(ip, o, bases=None, ns=None):
    if bases is not None:
        raise Undecided("dynamic class")
    o = ip.res(o)
    if isinstance(o, Ext):
        raise Undecided("type of " + o.name)
    return ip.type_of(o)


def b_vars(ip, o):
    return ip.getattr(o, "__dict__")


def b_id(ip, o):
    o = ip.res(o)
    if isinstance(o, (Ref, ArrV)) and not o.sub:
        return intv(10 ** 9 + o.cell)
    raise Undecided("id()")


def b_callable(ip, o):
    o = ip.res(o)
    if isinstance(o, (Fn, BoundM, Built, Cls, Partial, LruFn)):
        return TRUE
    if isinstance(o, Ext):
        return TRUE
    if isinstance(o, Ref):
        c = ip.content(o)
        return boolv(ONE if isinstance(c, ObjC) and c.cls.find("__call__")[0] is not None else ZERO)
    return FALSE


def b_divmod(ip, a, b):
    return Tup([ip.binop("FloorDiv", a, b), ip.binop("Mod", a, b)])


def b_pow(ip, a, b):
    return ip.binop("Pow", a, b)


def b_print(ip, args, kw):
    for a in args:
        v = ip.res(a)
        if isinstance(v, Ref) and isinstance(ip.content(v), ObjC):
            ip.to_str(v)
    return NONE


def b_property(ip, fget=None, fset=None, fdel=None, doc=None):
    return PropV(fget, fset, fdel)


# ---------------------------------------------------------------- stdlib

def nametup(ip, name, fields, rename=None, defaults=NONE, module=None):
    f = ip.res(fields)
    if isinstance(f, Str):
        names = f.lit.replace(",", " ").split()
    else:
        names = [lit(ip, x) for x in ip.concrete(f)]
    c = Cls(lit(ip, name), (ip.types["tuple"],))
    d = ip.res(defaults)
    ds = {}
    if d is not NONE:
        vals = ip.concrete(d)
        ds = dict(zip(names[len(names) - len(vals):], vals))
    c.ctor, c.fields = "nt", (names, ds)
    return c


def ft_reduce(ip, f, it, init=None):
    items = ip.concrete(it, "reduce")
    if init is not None:
        items = [init] + items
    if not items:
        ip.py_raise("TypeError", "reduce() of empty sequence with no initial value")
    acc = items[0]
    for x in items[1:]:
        acc = ip.call(f, [acc, x], {})
    return acc


def it_product(ip, *its, repeat=intv(1)):
    lists = [ip.items(x) for x in its] * int(ip.number(repeat).const)
    out = [()]
    for l in lists:
        new = []
        for o in out:
            for x in l:
                new.append(o + (x,))
        out = new
    segs = [x for x in out if any(isinstance(y, (MapSeg, PreSeg)) for y in x)]
    if not segs:
        return Ref(ip.new("iter", IterC([Tup(o) for o in out])))
    if len(lists) == 2 and all(len(l) == 1 and isinstance(l[0], MapSeg) and len(l[0].vals) == 1 for l in lists):
        a, b = lists[0][0], lists[1][0]
        n = mul(a.n, b.n)
        i = T.fresh_idx(n)
        va = ip.sub_val(a.vals[0], {a.idx: T.idiv(atom(i), b.n)})
        vb = ip.sub_val(b.vals[0], {b.idx: T.imod(atom(i), b.n)})
        return Ref(ip.new("iter", IterC([MapSeg(n, i, [Tup([va, vb])])])))
    raise Undecided("product of symbolic sequences")


def it_chain(ip, *its):
    out = []
    for x in its:
        out += ip.items(x)
    return Ref(ip.new("iter", IterC(out)))


def it_chain_from(ip, its):
    out = []
    for x in ip.items(its):
        if isinstance(x, MapSeg):
            if len(x.vals) == 1:
                inner = ip.items(x.vals[0])
                if not any(isinstance(y, (MapSeg, PreSeg)) for y in inner):
                    out.append(MapSeg(x.n, x.idx, inner))
                    continue
            raise Undecided("chain of a symbolic family")
        out += ip.items(x)
    return Ref(ip.new("iter", IterC(out)))


def it_islice(ip, it, *a):
    it = ip.res(it)
    b = [None if ip.res(x) is NONE else ip.number(x) for x in a]
    if len(b) == 1:
        lo, hi, st = ZERO, b[0], ONE
    else:
        lo, hi, st = b[0] or ZERO, b[1], (b[2] if len(b) > 2 and b[2] is not None else ONE)
    if st is not ONE:
        raise Undecided("islice with a step")
    c = ip.content(it) if isinstance(it, Ref) else None
    isiter = isinstance(c, IterC)
    items = list(c.items) if isiter else ip.items(it)
    n = ip.seg_len(items)
    if hi is None or A.le_(n, hi) is True:
        hi = n
    elif A.le_(hi, n) is not True:
        raise Undecided("islice bound")
    out = ip.seg_slice(items, lo, hi)
    if isiter:
        ip.put(it, IterC(ip.seg_slice(items, hi, n)))
    return Ref(ip.new("iter", IterC(out)))


def it_accumulate(ip, it, func=NONE, initial=NONE):
    items = ip.concrete(it, "accumulate")
    f = ip.res(func)
    acc = ip.res(initial)
    out = [] if acc is NONE else [acc]
    for x in items:
        acc = x if acc is NONE else (ip.binop("Add", acc, x) if f is NONE else ip.call(f, [acc, x], {}))
        out.append(acc)
    return Ref(ip.new("iter", IterC(out)))


def it_repeat(ip, x, times=None):
    if times is None:
        raise Undecided("infinite repeat")
    return Ref(ip.new("iter", IterC(ip.seq(ip.number(times), lambda i: x))))


def it_starmap(ip, f, it):
    return Ref(ip.new("iter", IterC(map_seg(ip, ip.items(it), lambda v: ip.call(f, ip.items(v), {})))))


def it_comb(n_only):
    def f(ip, it, r=None):
        import itertools
        items = ip.concrete(it, "combinations")
        k = len(items) if r is None else int(ip.number(r).const)
        g = itertools.combinations if n_only == "c" else itertools.permutations
        return Ref(ip.new("iter", IterC([Tup(x) for x in g(items, k)])))
    return f


def copy_shallow(ip, o):
    o = ip.res(o)
    if isinstance(o, ArrV):
        return ip.new_arr(ip.arr(o))
    if isinstance(o, Ref):
        c = ip.content(o)
        if isinstance(c, ObjC) and c.cls.find("__copy__")[0] is not None:
            return ip.call(ip.getattr(o, "__copy__"), [], {})
        return Ref(ip.new(ip.info[o.cell].kind, c))
    return o


def copy_deep(ip, o, memo=NONE):
    return deep(ip, o, {})


def deep(ip, v, memo):
    v = v if isinstance(v, Ite) else ip.res(v)
    if isinstance(v, Ite):
        return ip.mk_ite(v.c, deep(ip, v.a, memo) if v.a is not UNDEF else UNDEF,
                         deep(ip, v.b, memo) if v.b is not UNDEF else UNDEF)
    if isinstance(v, ArrV):
        k = (v.cell, v.sub, v.views)
        if k not in memo:
            if v.views:
                memo[k] = ip.new_arr(ip.arr(v))
            else:
                memo[k] = ip.new_arr(ip.content(Ref(v.cell, v.sub)))
        return memo[k]
    if isinstance(v, Tup):
        return Tup([deep_item(ip, x, memo) for x in v.items])
    if isinstance(v, NT):
        return NT(v.cls, [deep_item(ip, x, memo) for x in v.items])
    if isinstance(v, BoundM):
        return BoundM(v.fn, deep(ip, v.self_, memo))
    if isinstance(v, Partial):
        return Partial(v.fn, [deep(ip, x, memo) for x in v.args], {k: deep(ip, x, memo) for k, x in v.kw.items()})
    if isinstance(v, Ref):
        k = (v.cell, v.sub)
        if k in memo:
            return memo[k]
        c = ip.content(v)
        if isinstance(c, FrameC):
            return v
        if isinstance(c, ObjC) and c.cls.find("__deepcopy__")[0] is not None:
            raise Undecided("__deepcopy__")
        n = Ref(ip.new(ip.info[v.cell].kind, c))
        memo[k] = n
        if isinstance(c, ListC):
            ip.state[n.cell] = ListC([deep_item(ip, x, memo) for x in c.items])
        elif isinstance(c, DictC):
            ip.state[n.cell] = DictC([(deep(ip, a, memo), deep(ip, b, memo)) for a, b in c.items], c.default)
        elif isinstance(c, SetC):
            ip.state[n.cell] = SetC([deep(ip, x, memo) for x in c.items])
        elif isinstance(c, ObjC):
            ip.state[n.cell] = ObjC(c.cls, {k2: (deep(ip, x, memo) if x is not UNDEF else UNDEF) for k2, x in c.attrs.items()})
        elif isinstance(c, IterC):
            raise Undecided("deep copy of an iterator")
        return n
    return v


def deep_item(ip, x, memo):
    if isinstance(x, MapSeg):
        for v in x.vals:
            if isinstance(v, (Ref, ArrV)):
                raise Undecided("deep copy of a family")
        return x
    if isinstance(x, PreSeg):
        raise Undecided("loop carried list")
    return deep(ip, x, memo)


def lru_cache(ip, args, kw):
    if args and isinstance(ip.res(args[0]), (Fn, BoundM)):
        return LruFn(ip.res(args[0]), ip.new("list", ListC(())))
    return Built("lru_cache", lambda ip, f: LruFn(ip.res(f), ip.new("list", ListC(()))))


def partial(ip, args, kw):
    return Partial(args[0], args[1:], kw)


def ident_deco(ip, args, kw):
    """Decorator factory or decorator without effect on the meaning."""
    if len(args) == 1 and isinstance(ip.res(args[0]), (Fn, BoundM)) and not kw:
        return args[0]
    return Built("decorator", lambda ip, f: f)


def vectorize(ip, args, kw):
    def deco(ip, f):
        g = ip.res(f).copy()
        g.elementwise = True
        return g
    if args and isinstance(ip.res(args[0]), Fn):
        return deco(ip, args[0])
    return Built("vectorize", deco)


def abstractmethod(ip, f):
    f = ip.res(f)
    g = f
    while isinstance(g, (StaticM, ClassM, LruFn)):
        g = g.fn
    if isinstance(g, PropV):
        g = g.get
    if isinstance(g, Fn):
        ip.abstract.add(id(g.node))
    return f


def m_fn(name):
    def f(ip, x):
        p = ip.number(x)
        if name == "sqrt":
            ip.py_raise("ValueError", "math domain error", T.lt0(p))
            return Num(T.sqrt(p), "float")
        if name in ("log",):
            ip.py_raise("ValueError", "math domain error", T.c_not(T.lt(ZERO, p)))
        if name in ("floor", "ceil"):
            return Num(T.fn(name, p), "int")
        return Num(T.fn(name, p), "float")
    return f


def m_isnan(ip, x):
    p = ip.number(x)
    return boolv(ONE if p is T.num(float("nan")) else ZERO)


def m_isinf(ip, x):
    p = ip.number(x)
    return boolv(ONE if p in (T.num(float("inf")), T.num(float("-inf"))) else ZERO)


def m_prod(ip, it):
    r = intv(1)
    for x in ip.concrete(it):
        r = ip.binop("Mult", r, x)
    return r


def m_fsum(ip, it):
    v = ip.res(b_sum(ip, it))
    return Num(v.p, "float")


def op_bin(op):
    return lambda ip, a, b: ip.binop(op, a, b)


def itemgetter(ip, *ks):
    def g(ip, o):
        r = [ip.getitem(o, k) for k in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return Built("itemgetter", g)


def attrgetter(ip, *ks):
    def one(ip, o, n):
        for x in n.split("."):
            o = ip.getattr(o, x)
        return o

    def g(ip, o):
        r = [one(ip, o, lit(ip, k)) for k in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return Built("attrgetter", g)


def methodcaller(ip, args, kw):
    n = lit(ip, args[0])
    return Built("methodcaller", lambda ip, o: ip.call(ip.getattr(o, n), args[1:], kw))


def defaultdict(ip, args, kw):
    f = ip.res(args[0]) if args else NONE
    r = ip.new_dict((), None if f is NONE else f)
    ip.info[r.cell].kind = "ddict"
    dict_update(ip, [r] + list(args[1:]), kw)
    return r


def suppress(ip, *types):
    raise Undecided("contextlib.suppress")


def install(ip):
    raw = lambda n, f: Built(n, f, raw=True)
    B = ip.builtins
    for n, f in dict(len=b_len, zip=b_zip, enumerate=b_enumerate, map=b_map, filter=b_filter, sum=b_sum, any=b_anyall(True),
                     all=b_anyall(False), range=b_range, sorted=b_sorted, reversed=b_reversed, isinstance=b_isinstance,
                     issubclass=b_issubclass, hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, next=b_next, iter=b_iter,
                     abs=b_abs, round=b_round, vars=b_vars, id=b_id, callable=b_callable, divmod=b_divmod, pow=b_pow,
                     repr=to_str, property=b_property, staticmethod=lambda ip, f: StaticM(f), classmethod=lambda ip, f: ClassM(f),
                     super=lambda ip, c, o: SuperV(ip.res(c), o)).items():
        B[n] = Built(n, f)
    for n in ("min", "max"):
        B[n] = raw(n, lambda ip, a, k, f=b_minmax(n): ip.native(f, ip, a, k))
    B["print"] = raw("print", b_print)
    B["__name__"] = Str("__main__")
    t = ip.types
    ip.builtin_ctor = {
        t["object"]: lambda ip: Ref(ip.new("obj", ObjC(ip.types["object"], {}))),
        t["int"]: to_int, t["float"]: to_float, t["bool"]: to_bool, t["str"]: to_str, t["list"]: to_list, t["tuple"]: to_tuple,
        t["set"]: to_set, t["frozenset"]: to_set, t["slice"]: to_slice, t["type"]: b_type,
        t["npfloat"]: lambda ip, x=None: Num(to_float(ip, x).p, "npfloat"),
        t["npsingle"]: lambda ip, x=None: Num(T.fn("single", to_float(ip, x).p), "npfloat"),
        t["npint"]: lambda ip, x=None: Num(to_int(ip, x).p, "npint"),
        t["npbool"]: lambda ip, x=FALSE: Num(ip.truth(x), "npbool"),
        t["dict"]: lambda ip, *a, **k: mk_dict("dict")(ip, a, k),
        t["OrderedDict"]: lambda ip, *a, **k: mk_dict("odict")(ip, a, k),
        t["defaultdict"]: lambda ip, *a, **k: defaultdict(ip, a, k),
    }
    E, V_ = ip.extcalls, ip.extvals
    V_["collections.OrderedDict"] = t["OrderedDict"]
    V_["collections.defaultdict"] = t["defaultdict"]
    V_["typing.OrderedDict"] = t["OrderedDict"]
    V_["abc.ABC"] = t["ABC"]
    for n in ("List", "Dict", "Set"):
        V_["typing." + n] = t[n.lower()]
    V_["typing.Tuple"] = t["tuple"]
    for m, d in {
        "collections": dict(namedtuple=nametup),
        "functools": dict(reduce=ft_reduce),
        "itertools": dict(product=it_product, chain=it_chain, islice=it_islice, accumulate=it_accumulate, repeat=it_repeat,
                          starmap=it_starmap, combinations=it_comb("c"), permutations=it_comb("p")),
        "copy": dict(copy=copy_shallow, deepcopy=copy_deep),
        "abc": dict(abstractmethod=abstractmethod),
        "math": dict(isnan=m_isnan, isinf=m_isinf, prod=m_prod, fsum=m_fsum, **{n: m_fn(n) for n in ("sqrt", "log", "exp", "log1p", "floor", "ceil", "fabs")}),
        "operator": dict(itemgetter=itemgetter, attrgetter=attrgetter, add=op_bin("Add"), mul=op_bin("Mult"), sub=op_bin("Sub"),
                         truediv=op_bin("Div")),
    }.items():
        for n, f in d.items():
            V_[m + "." + n] = Built(n, f)
    V_["itertools.chain"] = Ext("itertools.chain")
    E["itertools.chain"] = it_chain
    V_["itertools.chain.from_iterable"] = Built("chain.from_iterable", it_chain_from)
    V_["math.fabs"] = Built("fabs", lambda ip, x: Num(T.fn("abs", ip.number(x)), "float"))
    V_["math.pi"] = Num(atom(T.mk("sym", "pi")), "float")
    V_["math.inf"] = Num(T.num(float("inf")), "float")
    V_["math.nan"] = Num(T.num(float("nan")), "float")
    T.declare("pi", 3, 4)
    for n, f in {"functools.lru_cache": lru_cache, "functools.cache": lru_cache, "functools.partial": partial,
                 "functools.wraps": ident_deco, "numba.jit": ident_deco, "numba.njit": ident_deco, "numba.vectorize": vectorize,
                 "operator.methodcaller": methodcaller, "typing.cast": lambda ip, a, k: a[1]}.items():
        V_[n] = raw(n, f)
    for n in ("float64", "float32", "int64", "int32", "boolean"):
        E["numba." + n] = lambda ip, *a, **k: Ext("numba.sig")
    E["typing.TypeVar"] = lambda ip, *a, **k: Ext("typing.T")
    E["warnings.warn"] = lambda ip, *a, **k: NONE
    E["tabulate.tabulate"] = lambda ip, *a, **k: Str("<table>")

    def method(o, c, name):
        if c is None and isinstance(o, Ref):
            c = ip.content(o)
        if isinstance(c, ListC):
            f = LIST.get(name)
        elif isinstance(c, DictC):
            if name == "update":
                return Built("update", lambda ip, args, kw: dict_update(ip, [o] + list(args), kw), raw=True)
            f = DICT.get(name)
        elif isinstance(c, SetC):
            f = SET.get(name)
        elif isinstance(c, IterC):
            f = {"__next__": b_next}.get(name)
        elif isinstance(o, Str):
            if name == "format":
                return Built("format", lambda ip, args, kw: str_format(ip, [o] + list(args), kw), raw=True)
            f = STR.get(name)
        elif isinstance(o, (Tup, NT)):
            f = {"index": seq_index, "count": seq_count}.get(name)
        else:
            f = None
            import nplib
            r = nplib.attr(ip, o, name)
            if r is not None:
                return r
        if f is None:
            if name in ("__class__",):
                return ip.type_of(o)
            if name == "__len__" and isinstance(c, (ListC, DictC, SetC)):
                return Built(name, lambda ip: ip.len_of(o))
            if name == "__iter__":
                return Built(name, lambda ip: b_iter(ip, o))
            if name == "__getitem__" and (isinstance(c, (ListC, DictC)) or isinstance(o, (Tup, ArrV))):
                return Built(name, lambda ip, k: ip.getitem(o, k))
            if name == "__contains__" and isinstance(c, (ListC, DictC, SetC)):
                return Built(name, lambda ip, k: boolv(ip.contains(o, k)))
            pt = {ListC: list, DictC: dict, SetC: set, IterC: type(iter(()))}.get(type(c)) or {Str: str, Tup: tuple, NT: tuple, Fn: type(method)}.get(type(o))
            if pt is not None and hasattr(pt, name):
                raise Undecided(f"method {name} of {pt.__name__}")
            return None
        return bound(name, f, o)
    ip.method = method
