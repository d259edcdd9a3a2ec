"""Summaries of loops over sequences of symbolic length: the body is evaluated
once for a generic iteration; appends, element stores and additive updates of
the surviving state are closed over the iteration range, everything else is
left undecided."""
import terms as T
from terms import ZERO, ONE, add, mul, neg, atom, subst, Undecided, mk
import arrays as A
from arrays import ArrC
from values import *
from core import Dead, NeedFork


class Tok:
    n = 0

    def __init__(self):
        Tok.n += 1
        self.id = Tok.n


def symbolic(ip, items, bind, body, orelse):
    base = dict(ip.state)
    nb, nc = len(ip.flows["break"]), len(ip.flows["continue"])
    for x in items:
        if ip.gate is ZERO:
            break
        if isinstance(x, PreSeg):
            raise Undecided("loop carried list")
        if isinstance(x, MapSeg):
            segment(ip, x, bind, body)
            continue
        try:
            bind(x)
            body()
        except Dead:
            ip.gate = ZERO
        ip.collect("continue", nc, base)
    if ip.gate is not ZERO and orelse:
        try:
            ip.exec_block(orelse)
        except Dead:
            ip.gate = ZERO
    ip.collect("break", nb, base)
    if ip.gate is ZERO:
        raise Dead()


def changed_slots(ip, pre, post):
    out = set()
    for c, old in pre.items():
        new = post.get(c)
        if new is old:
            continue
        if new is None:
            continue        # frame discarded
        if isinstance(old, IteC) or isinstance(new, IteC):
            out.add((c, "whole", None))
        elif isinstance(old, FrameC):
            for k in list(old.vars) + [k for k in new.vars if k not in old.vars]:
                a, b = old.vars.get(k), new.vars.get(k)
                if a is not b and (a is None or b is None or not ip.same(a, b)):
                    out.add((c, "var", k))
        elif isinstance(old, ObjC):
            for k in list(old.attrs) + [k for k in new.attrs if k not in old.attrs]:
                a, b = old.attrs.get(k), new.attrs.get(k)
                if a is not b and (a is None or b is None or not ip.same(a, b)):
                    out.add((c, "attr", k))
        elif isinstance(old, ListC):
            if isinstance(new, ListC) and len(new.items) == len(old.items) and all(
                    ip.same_item(a, b) for a, b in zip(old.items, new.items)):
                continue
            out.add((c, "list", None))
        elif isinstance(old, ArrC):
            if isinstance(new, ArrC) and new.axes == old.axes and all(new.blocks[k] is v for k, v in old.blocks.items()):
                continue
            out.add((c, "arr", None))
        else:
            out.add((c, "whole", None))
    return out


def placeholder(ip, tok, slot, old):
    """Symbolic loop head content of a slot; returns (new content, record)."""
    c, kind, k = slot
    if kind in ("var", "attr"):
        v = (old.vars if kind == "var" else old.attrs).get(k)
        if isinstance(v, Num):
            name = f"§prev{tok.id}.{c}.{k}"
            T.declare(name)
            return Num(T.sym(name), v.ty), mk("sym", name)
        return PrevV(tok), None
    return None, None


def segment(ip, seg, bind, body):
    n = seg.n
    i = T.fresh_idx(n)
    mp = {seg.idx: atom(i)}
    vals = [ip.sub_val(v, mp) for v in seg.vals]
    base = dict(ip.state)
    g0 = ip.gate
    slots = set()
    for attempt in range(6):
        tok = Tok()
        ip.state = dict(base)
        ip.gate = g0
        recs = setup(ip, tok, slots, base)
        head = dict(ip.state)
        saved = ip.enter()
        ip.idxs.append(i)
        err = None
        try:
            for v in vals:
                if ip.gate is ZERO:
                    break
                step(ip, i, v, bind, body)
        except NeedFork:
            ip.idxs.pop()
            ip.leave(saved)
            raise
        except Undecided as e:
            err = e
        if err is not None:
            ip.idxs.pop()
            ip.leave(saved)
            raise err
        ip.idxs.pop()
        raises, flows, gate, post = ip.raises, ip.flows, ip.gate, ip.state
        ip.leave(saved)
        new = changed_slots(ip, head, post)
        for r in raises:
            new |= changed_slots(ip, head, r[2])
        for fl in flows.values():
            for x in fl:
                new |= changed_slots(ip, head, x[1])
        if new <= slots:
            break
        if any(k == "whole" for _, k, _ in new):
            raise Undecided("loop changes a container of symbolic content")
        slots |= new
    else:
        raise Undecided("loop summary does not stabilise")
    finish(ip, n, i, base, g0, slots, recs, tok, raises, flows, gate, post)


def step(ip, i, v, bind, body):
    snap = ip.snap()
    b2 = dict(ip.state)
    try:
        bind(v)
        body()
    except Dead:
        ip.gate = ZERO
    except NeedFork as f:
        if i not in f.atom.leaves:
            raise
        state, g0, nr, nf, ni = snap
        ip.state = dict(state)
        ip.gate = g0
        del ip.raises[nr:]
        for k, m in nf.items():
            del ip.flows[k][m:]
        del ip.idxs[ni:]
        ip.fork(f.atom, lambda: step(ip, i, v, bind, body), (state, g0))
        return
    ip.collect("continue", snap[3]["continue"], b2)


def setup(ip, tok, slots, base):
    recs = {}
    for s in sorted(slots, key=lambda x: (x[0], x[1], str(x[2]))):
        c, kind, k = s
        old = ip.state[c]
        if kind in ("var", "attr"):
            ph, at = placeholder(ip, tok, s, base[c])
            recs[s] = at
            if kind == "var":
                vs = dict(old.vars)
                vs[k] = ph
                ip.state[c] = FrameC(vs)
            else:
                at_ = dict(old.attrs)
                at_[k] = ph
                ip.state[c] = ObjC(old.cls, at_)
        elif kind == "list":
            ip.state[c] = ListC((PreSeg(tok),))
        elif kind == "arr":
            name = f"§prev{tok.id}.{c}"
            T.declare(name)
            recs[s] = name
            offs = [A.offsets(x) for x in old.axes]
            ip.state[c] = ArrC(old.axes, {key: atom(mk("elem", name, *[add(offs[d][q], A.loc(d, old.axes[d][q])) for d, q in enumerate(key)]))
                                          for key in old.blocks}, old.dtype)
    return recs


def mentions(x, name):
    return any((a.kind in ("sym", "elem")) and a.args[0] == name for a in x.leaves) if hasattr(x, "leaves") else False


def has_prev(p, at):
    return deep_has(p, at, set())


def deep_has(p, name, seen):
    """Does the atom or any element of that name occur in p?"""
    for m, _ in p.t:
        for a, _e in m:
            if atom_has(a, name, seen):
                return True
    return False


def atom_has(a, name, seen):
    if a.id in seen:
        return False
    seen.add(a.id)
    if a.kind in ("sym", "elem") and a.args and a.args[0] == name:
        return True
    for x in a.args:
        if arg_has(x, name, seen):
            return True
    return False


def arg_has(x, name, seen):
    if isinstance(x, T.Poly):
        return deep_has(x, name, seen)
    if isinstance(x, T.Atom):
        return atom_has(x, name, seen)
    if isinstance(x, tuple):
        return any(arg_has(y, name, seen) for y in x)
    return False


def occurs(p, x):
    return x in p.leaves


def val_has_prev(ip, v, tok, depth=0):
    if isinstance(v, PrevV):
        return True
    if isinstance(v, Ite):
        return val_has_prev(ip, v.a, tok) or val_has_prev(ip, v.b, tok)
    if isinstance(v, (Tup, NT)):
        return any(val_has_prev(ip, x, tok) for x in v.items if isinstance(x, V))
    if isinstance(v, Num):
        return any_prev(v.p, tok)
    return False


def any_prev(p, tok):
    pre = f"§prev{tok.id}."
    return poly_pre(p, pre, set())


def poly_pre(p, pre, seen):
    for m, _ in p.t:
        for a, _e in m:
            if atom_pre(a, pre, seen):
                return True
    return False


def atom_pre(a, pre, seen):
    if a.id in seen:
        return False
    seen.add(a.id)
    if a.kind in ("sym", "elem") and isinstance(a.args[0], str) and a.args[0].startswith(pre):
        return True
    for x in a.args:
        if isinstance(x, T.Poly):
            if poly_pre(x, pre, seen):
                return True
        elif isinstance(x, T.Atom):
            if atom_pre(x, pre, seen):
                return True
        elif isinstance(x, tuple):
            for y in _flat(x):
                if isinstance(y, T.Poly) and poly_pre(y, pre, seen) or isinstance(y, T.Atom) and atom_pre(y, pre, seen):
                    return True
    return False


def _flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from _flat(y)
        else:
            yield y


def finish(ip, n, i, base, g0, slots, recs, tok, raises, flows, gate, post):
    if flows["break"]:
        raise Undecided("break out of a loop of symbolic length")
    # conditions must not depend on earlier iterations
    conds = [gate] + [r[0] for r in raises] + [x[0] for x in flows["return"]]
    for c in conds:
        if any_prev(c, tok):
            raise Undecided("loop condition depends on earlier iterations")
    stop = ZERO
    if raises and flows["return"]:
        raise Undecided("loop with returns and raises")
    for g, st, v in flows["return"]:
        if not isinstance(v, (Num, NoneT, Str, Tup)) or isinstance(v, Num) and occurs(v.p, i) or isinstance(v, Tup):
            raise Undecided("loop returns a value of the iteration")
        if not T.is_cond(g):
            raise Undecided("loop condition")
        a = T.any_of(n, i, g)
        ip.flows["return"].append((mul(g0, mul(a, T.c_not(stop))), poison(base, slots), v))
        stop = T.c_or(stop, a)
    for r in raises:
        a = T.any_of(n, i, r[0])
        ip.raises.append((mul(g0, mul(a, T.c_not(stop))), r[1], poison(base, slots)) + tuple(r[3:]))
        stop = T.c_or(stop, a)
    # new state
    out = {}
    for c, v in post.items():
        out[c] = v
    last = {i: add(n, neg(ONE))}
    some = T.sign_lt0(neg(n)) is True      # n > 0
    for s in sorted(slots, key=lambda x: (x[0], x[1], str(x[2]))):
        c, kind, k = s
        cur = out.get(c)
        if cur is None:
            continue
        if kind in ("var", "attr"):
            vs = dict(cur.vars if kind == "var" else cur.attrs)
            old = (base[c].vars if kind == "var" else base[c].attrs).get(k)
            v = vs.get(k, UNDEF)
            r = close_value(ip, n, i, v, old, recs.get(s), tok, last, some)
            vs[k] = r
            out[c] = FrameC(vs) if kind == "var" else ObjC(cur.cls, vs)
        elif kind == "list":
            it = cur.items if isinstance(cur, ListC) else None
            if it is None or not it or not isinstance(it[0], PreSeg) or any(isinstance(x, (MapSeg, PreSeg)) for x in it[1:]):
                raise Undecided("list changed in a loop of symbolic length")
            new = it[1:]
            for v in new:
                if val_has_prev(ip, v, tok):
                    raise Undecided("loop carried value stored")
            bi = base[c].items
            out[c] = ListC(bi + (MapSeg(n, i, new),)) if new else base[c]
        elif kind == "arr":
            out[c] = close_array(ip, n, i, cur, base[c], recs[s], tok)
    # surviving new cells must not carry placeholders
    for c, v in out.items():
        if c in base:
            continue
        if isinstance(v, ArrC):
            if any(any_prev(q, tok) for q in v.blocks.values()):
                raise Undecided("loop carried value stored")
        elif isinstance(v, (ListC, SetC, IterC)):
            if any(isinstance(x, PreSeg) or isinstance(x, V) and val_has_prev(ip, x, tok) for x in v.items):
                raise Undecided("loop carried value stored")
        elif isinstance(v, ObjC):
            if any(val_has_prev(ip, x, tok) for x in v.attrs.values()):
                raise Undecided("loop carried value stored")
        elif isinstance(v, FrameC):
            if any(val_has_prev(ip, x, tok) for x in v.vars.values()):
                out[c] = FrameC({k: Top("loop carried value") if val_has_prev(ip, x, tok) else x for k, x in v.vars.items()})
        elif isinstance(v, DictC):
            if any(val_has_prev(ip, x, tok) for kv in v.items for x in kv):
                raise Undecided("loop carried value stored")
    ip.state = out
    ip.gate = mul(g0, T.c_not(stop))
    if ip.gate is ZERO:
        raise Dead()


def poison(base, slots):
    st = dict(base)
    for c, kind, k in slots:
        if kind == "var":
            vs = dict(st[c].vars)
            vs[k] = Top("variable of an interrupted loop")
            st[c] = FrameC(vs)
        elif kind == "attr":
            vs = dict(st[c].attrs)
            vs[k] = Top("attribute set by an interrupted loop")
            st[c] = ObjC(st[c].cls, vs)
        else:
            st[c] = None
    return st


def close_value(ip, n, i, v, old, prev, tok, last, some):
    if isinstance(v, Num) and prev is not None and isinstance(old, Num):
        p = atom(prev)
        d = add(v.p, neg(p))
        if not any_prev(d, tok):
            return Num(add(old.p, T.make_sum(n, i, d)), v.ty)
    if val_has_prev(ip, v, tok):
        return Top("loop carried value")
    if not some:
        if old is not None and ip.same(ip.sub_val(v, last), old):
            return old
        return Top("value after a possibly empty loop")
    return ip.sub_val(v, last)


def close_array(ip, n, i, cur, old, name, tok):
    if not isinstance(cur, ArrC):
        raise Undecided("array replaced in a loop")
    old2 = old
    if cur.axes != old.axes:
        for d in range(old.ndim):
            old2 = A.split_axis(old2, d, A.bounds(cur.axes[d])[:-1])
        if cur.axes != old2.axes:
            raise Undecided("array partition changed in a loop")
    offs = [A.offsets(x) for x in cur.axes]
    blocks = {}
    for key, q in cur.blocks.items():
        pv = atom(mk("elem", name, *[add(offs[d][s], A.loc(d, cur.axes[d][s])) for d, s in enumerate(key)]))
        d = add(q, neg(pv))
        if d is ZERO:
            blocks[key] = old2.blocks[key]
            continue
        if not any_prev(d, tok):
            blocks[key] = add(old2.blocks[key], T.make_sum(n, i, d))
            continue
        # element store: q = ite(e, v, prev) with e an equation that fixes i
        eqs = [a for a in T.ind_atoms(q) if a.kind == "eq" and i in a.leaves]
        done = False
        for e in eqs:
            off = T.cofactor(q, e, 0)
            on = T.cofactor(q, e, 1)
            if off is not pv:
                continue
            sol = T._solve_for(e.args[0], i)
            if sol is None:
                continue
            val = subst(on, {i: sol})
            inr = mul(T.le(ZERO, sol), T.lt(sol, n))
            if any_prev(val, tok):
                dd = add(val, neg(pv))
                if any_prev(dd, tok):
                    continue
                val = add(old2.blocks[key], dd)
            blocks[key] = T.ite(inr, val, old2.blocks[key])
            done = True
            break
        if not done:
            raise Undecided("array update carried through a loop")
    return ArrC(cur.axes, blocks, old.dtype)
