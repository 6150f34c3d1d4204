"""Obligation functions of the witness crates: every result component must be true."""
from .values import *
from .engine import Engine, State, MODE
from . import mir, spans


def functions(prog, crate, module, prefix="ob_"):
    pre = f"{crate}::{module}::{prefix}"
    return sorted(k for k in prog.bodies if k.startswith(pre) and "::{" not in k[len(pre):]
                  and prog.bodies[k].promoted is None)


def make_arg(E, st, t):
    if t[0] == "adt" and t[1] == spans.SPAN:
        return spans.fresh_span(E, st)
    if t[0] == "adt" and t[1] == spans.LOC:
        return spans.fresh_value(E, st, t)
    return E.fresh(st, t)


class Outcome:
    def __init__(self):
        self.problems = []      # (key, message, trace)
        self.exits = []


def explore(prog, key, hooks, args=None, st=None, on=None, setup=None):
    """run one obligation function; problems for each component that can be false"""
    E = Engine(prog, hooks)
    st = st or State()
    b = prog.bodies[key]
    if args is None:
        args = [make_arg(E, st, t) for t in b.locals[1:b.argc + 1]]
    if setup:
        setup(E, st, args)
    out = Outcome()
    panics = []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: out.exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in out.exits:
        for i, x in enumerate(v[3] if v[0] == "agg" and v[1] == "tuple" else ()):
            if boolish(x):
                b = x if isinstance(x, int) else E.truth(s, x)
                if b == 0:
                    out.problems.append((f"component {i}", f"does not hold (component {i} of the obligation is false)",
                                         s.trace_list()))
                elif b is None and refutable(E, s, x):
                    out.problems.append((f"component {i}", f"need not hold: {show(x)} (component {i} of the obligation)",
                                         s.trace_list()))
                elif b is None:
                    E.undecided.append((f"component {i} not decided", show(x)))
        if on:
            on(E, s, v, args, out)
    for s, m in panics:
        out.problems.append(("panic", f"panics: {m}", s.trace_list()))
    if not out.exits and not panics and not E.undecided:
        out.problems.append(("diverges", "never returns", []))
    return E, out


def refutable(E, s, x):
    """x can be false: only equalities and orderings of unknown inputs are involved"""
    if not plain(x):
        return False
    n = s.copy()
    try:
        E.assume(n, x, 0)
    except Infeasible:
        return False
    return True


def plain(x):
    if isinstance(x, int):
        return True
    if x[0] == "s":
        return True
    if x[0] == "lin":
        return all(plain(t) for t, _ in x[2])
    return x[0] == "t" and x[1] in ("eq", "not", "lt", "le", "and", "or", "len", "pred") and all(
        plain(y) for y in x[2])


def boolish(x):
    return isinstance(x, int) or isinstance(x, tuple) and x and (
        x[0] == "s" and x[1] == "bool" or x[0] == "t" and x[3] == "bool")


def report(ck, E, out, key, name, ignore_panic=None):
    ck.engine(E, name)
    bad = [p for p in out.problems if not (ignore_panic and p[0] == "panic" and ignore_panic(p))]
    s = E.prog.bodies[key].span
    for k, msg, trace in bad:
        w = blame(trace) or f"{s[0]}:{s[1]}"
        ck.violation(f"{name}: {k}", w, f"{name}: {msg}", trace)
    ck.obligation(name, not bad, f"{E.nstates} abstract states")
    return not bad


def blame(trace):
    """last place in /repo the path went through"""
    for t in reversed(trace):
        if t.startswith("/repo/"):
            return t.split(" ")[0].rstrip(":")
    return None
