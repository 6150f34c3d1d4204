"""Abstract spans: a shared logger status with counters, and two locations."""
from .values import *
from .engine import State, Engine
from .std import STD
from .engine import builtin
from . import mir

SPAN = "laps::span::Span"
LOC = "laps::span::Location"
ATOMIC = "core::sync::atomic::Atomic"


def is_loc(t):
    return t[0] == "adt" and t[1] == LOC


def fresh_location(E, st):
    return E.expand(st, E.fresh(st, ("adt", LOC, ())))


def fresh_value(E, st, t):
    """unknown value with structs, boxes and counters opened"""
    if t[0] == "adt":
        if t[1].endswith("Arc") or t[1].endswith("::Rc") or t[1] == "alloc::boxed::Box":
            return ("box", fresh_value(E, st, t[2][0]))
        if t[1] == ATOMIC:
            return ("s", "atomic", fresh_id())
        a = E.prog.adts.get(t[1])
        if a and t[1].startswith("laps") and len(a["variants"]) == 1 and a["kind"] == "struct":
            return ("agg", t[1], 0, tuple(fresh_value(E, st, f[1]) for f in a["variants"][0]["fields"]))
    return E.fresh(st, t)


def fresh_span(E, st, like=None):
    """a span; with `like`, one that shares that span's logger"""
    fs = []
    for i, (name, t) in enumerate(E.prog.adts[SPAN]["variants"][0]["fields"]):
        if like is not None and not is_loc(t):
            fs.append(like[3][i])
        else:
            fs.append(fresh_value(E, st, t))
    return ("agg", SPAN, 0, tuple(fs))


def logger_of(prog, v):
    """the parts of a span that are not locations"""
    return tuple(x for x, (n, t) in zip(v[3], prog.adts[SPAN]["variants"][0]["fields"]) if not is_loc(t))


def spans_in(v):
    if not isinstance(v, tuple) or not v:
        return ()
    if v[0] == "agg" and v[1] == SPAN:
        return (v,)
    out = ()
    for x in v:
        if isinstance(x, tuple):
            out += spans_in(x)
    return out


# ---- counters: identity is the symbol; ghost "A:<symbol>" is the change so far ---------------------

def _atomic(E, st, v):
    v = E.deref(st, v)
    return v if isinstance(v, tuple) and v[0] == "s" and v[1] == "atomic" else None


def _key(a):
    return f"A:{a[2]}"


def at_new(E, st, c):
    a = ("s", "atomic", fresh_id())
    st.ghost["A0:%d" % a[2]] = c.args[0]
    return a


def base(st, a):
    b = st.ghost.get("A0:%d" % a[2])
    return b if b is not None else ("t", "count", (a,), "int:usize")


def delta(st, a):
    return st.ghost.get(_key(a), 0)


def at_load(E, st, c):
    a = _atomic(E, st, c.args[0])
    if a is None:
        raise Undecided("load of an unknown counter")
    return lin_add(base(st, a), delta(st, a))


def at_add(sign):
    def h(E, st, c):
        a = _atomic(E, st, c.args[0])
        if a is None:
            raise Undecided("update of an unknown counter")
        old = lin_add(base(st, a), delta(st, a))
        d = lin_add(delta(st, a), c.args[1], sign)
        st.ghost[_key(a)] = d
        st.note(f"{c.frame.body.span[0]}:{c.line}: counter changes by {show(d)}")
        return old
    return h


def at_store(E, st, c):
    a = _atomic(E, st, c.args[0])
    if a is None:
        raise Undecided("store to an unknown counter")
    st.ghost[_key(a)] = lin_add(c.args[1], base(st, a), -1)
    st.ghost["overwritten"] = 1
    st.note(f"{c.frame.body.span[0]}:{c.line}: counter overwritten")
    return UNIT


def ptr_eq(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    if a == b:
        return 1
    return 0


HOOKS = {
    "std::sync::atomic::Atomic::new": at_new,
    "std::sync::atomic::Atomic::load": at_load,
    "std::sync::atomic::Atomic::fetch_add": at_add(1),
    "std::sync::atomic::Atomic::fetch_sub": at_add(-1),
    "std::sync::atomic::Atomic::store": at_store,
    "std::sync::Arc::ptr_eq": ptr_eq,
}


def havoc(E, st, c):
    """an outside call: any result; exclusive borrows it is given may be changed.

    Functions of the analysed crates are never treated this way, and a closure handed out must
    not reach a counter."""
    if c.npath.startswith("laps") or c.key.startswith("laps"):
        return NotImplemented
    for a in c.args:
        clo = closures_in(E, st, a)
        for k in clo:
            if touches_counter(E.prog, k):
                raise Undecided(f"a closure that updates a counter is handed to {c.npath}")
        if isinstance(a, tuple) and a[0] == "mref":
            loc = ("place", a[1], a[2])
            cur = E.rd(st, loc)
            if spans_in(cur):
                raise Undecided(f"a span is lent to {c.npath}")
            lab = label_of(cur)
            if cur[0] == "seq" and cur[1] == "string":
                E.wr(st, loc, ("seq", cur[1], (("seg", "char", fresh_id(), False),)))
                continue
            E.wr(st, loc, ("s", lab if isinstance(lab, str) and cur[0] == "s" else "?havoc", fresh_id()))
    t = E.norm(E.place_ty(st, c.dest), c.frame.substs) if c.dest is not None else ("tuple", ())
    if t[0] == "never" or c.target is None:
        raise Infeasible()
    return E.fresh(st, t)


def closures_in(E, st, v, depth=0):
    out = set()
    if isinstance(v, tuple) and v:
        if v[0] == "clo":
            out.add(v[1])
        if v[0] == "mref" and depth < 4:
            try:
                out |= closures_in(E, st, E.rd(st, ("place", v[1], v[2])), depth + 1)
            except Undecided:
                pass
            return out
        for x in v:
            if isinstance(x, tuple):
                out |= closures_in(E, st, x, depth)
    return out


def touches_counter(prog, key, seen=None):
    seen = seen or set()
    if key in seen or key not in prog.bodies:
        return False
    seen.add(key)
    for callee in callees(prog, key):
        d = prog.defs.get(callee)
        n = d["npath"] if d else callee
        if n.startswith("std::sync::atomic"):
            return True
        if callee.startswith("laps") and touches_counter(prog, callee, seen):
            return True
    return False


def callees(prog, key):
    out = []
    for blk in prog.bodies[key].blocks:
        if blk and blk[1][0] == "call" and blk[1][1][0] == "const":
            t = blk[1][1][1]["t"]
            if t[0] == "fndef":
                out.append(t[1])
    return out
