"""C05: a reported error is returned at once, unchanged; none is invented."""
from ..common import Check, program, confirmed
from ..stream import *
from ..grammar import run_parse, run_maybe
from .c01 import (TS, LA, report, parse_impls, buffer_state, buffer_impls, lookahead_state, _self_is, _is_la)
from .c02 import TBTY
from . import c09, c11
from .. import readers


def default_methods(prog):
    """provided methods of TokenStream, from the trait itself"""
    return sorted(k for k in prog.bodies if k.startswith(TS) and "{" not in k and prog.bodies[k].promoted is None)


def arg(E, st, t, w, recv):
    if t[0] == "ref" and t[1][0] == "param" and t[1][1] in ("Self", "TS"):
        return recv
    return E.fresh(st, t)


def judge(ck, w, E, exits, key, name):
    for s, v in exits:
        if isinstance(v, tuple) and v[0] == "agg" and v[1] == RESULT:
            error_discipline(w, s, v)
        elif "err" in s.ghost:
            w.problem(s, "error", "error swallowed", f"returns {show(v)} although {show(s.ghost['err'])} was reported")
    report(ck, w, E, key, name, ("error",))
    ck.count("operations")


@confirmed
def stream_default(ck, prog, key):
    b = prog.bodies[key]
    w = World(prog)
    st = w.state()
    st.ghost["asked"] = ("seq", "asked", ())
    E0 = Engine(prog)
    args = [w.STREAMREF] + [E0.fresh(st, t) for t in b.locals[2:b.argc + 1]]
    E, exits = run(prog, w, key, args, {}, st)
    judge(ck, w, E, exits, key, "TokenStream::" + key.rsplit("::", 1)[-1])


@confirmed
def buffer_method(ck, prog, m, key):
    w = World(prog)
    st, cell = buffer_state(prog, w)
    st.ghost["asked"] = ("seq", "asked", ())
    b = prog.bodies[key]
    E0 = Engine(prog)
    args = [("mref", cell, ())]
    for t in b.locals[2:b.argc + 1]:
        args.append(("s", TOK, fresh_id()) if m == "unread" else E0.fresh(st, t))
    E, exits = run(prog, w, key, args, {}, st)
    judge(ck, w, E, exits, key, "TokenBuffer::" + m)


@confirmed
def lookahead(ck, prog, key):
    b = prog.bodies[key]
    w = World(prog)
    st, la = lookahead_state(prog, w)
    if b.locals[1][0] == "ref":
        st.mem[("g", "la")] = la
        la = ("mref", ("g", "la"), ())
    E0 = Engine(prog)
    args = [la] + [E0.fresh(st, t) for t in b.locals[2:b.argc + 1]]
    E, exits = run(prog, w, key, args, {}, st)
    judge(ck, w, E, exits, key, "Lookahead::" + key.rsplit("::", 1)[-1])


@confirmed
def ast(ck, prog, imp, which):
    w, E, key, name, known = which(prog, imp)
    report(ck, w, E, key, name, ("error",))
    ck.count("operations")


def reader_error(src, E, s, v):
    """a failed read ends the operation with a diagnostic made for it, exactly one"""
    if "err" not in s.ghost:
        return
    e = s.ghost["err"]
    if v[2] == 0:
        src.problem(s, "error", "error swallowed", f"returns {show(v)} although {show(e)} was reported")
    elif not (is_diag(v[3][0]) and v[3][0][2][1] == e):
        src.problem(s, "error", "a different error is returned", f"returns {show(v)}, reported was {show(e)}")


@confirmed
def reader(ck, prog, name, m):
    src, E, key, out = c09.explore(prog, name, m)
    for s, v, a in out:
        E.judge(s, v, lambda s, v: reader_error(src, E, s, v))
    c09.report(ck, src, E, key, name.rsplit("::", 1)[-1] + "::" + m, ("error",))
    ck.count("operations")


def main():
    ck = Check("C05",
               "on every path: after an operation it calls has failed, a combinator calls nothing more and returns that "
               "very error; an error that was neither reported to it nor built by a diagnostic is never returned",
               "Abstract interpretation of the type-checked MIR of every combinator; every callee outside the library "
               "(tokenizer, sub-parser, predicate) may fail at every call with an error of its own.")
    prog = program()
    for key in default_methods(prog):
        stream_default(ck, prog, key)
    for m, key in sorted(buffer_impls(prog).items()):
        buffer_method(ck, prog, m, key)
    for key in sorted(k for k, b in prog.bodies.items() if k.startswith("laps::token::") and b.argc >= 1
                      and b.kind in ("AssocFn", "assocfn") and _self_is(b.locals[1], LA)):
        lookahead(ck, prog, key)
    for imp in parse_impls(prog):
        ast(ck, prog, imp, run_parse)
        ast(ck, prog, imp, run_maybe)
    for m in c11.PLAIN + c11.UNTIL:
        c11.method(ck, prog, m, ("error",))
    for name in readers.READERS:
        for m in c09.READING:
            reader(ck, prog, name, m)
    ck.floor("operations", 80)
    return ck.finish()
