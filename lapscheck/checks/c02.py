"""C02: token streams deliver every token exactly once, in order."""
from ..common import Check, program, confirmed
from ..stream import *
from .c01 import (TS, report, buffer_state, buffered, buffer_impls, is_prefix, returned)

TB = "laps::token::TokenBuffer"
TBTY = ("adt", TB, (("param", "TN"), ("param", "T")))


def S(items):
    return show(("seq", "s", tuple(items)))


@confirmed
def buffer_run(ck, prog, m, judge, n=None, held=None):
    """one method of TokenBuffer (its own or the inherited default)"""
    impls = buffer_impls(prog)
    trait = "laps::token::Tokenizer::" if m == "next_token" else TS
    key = impls.get(m, trait + m)
    w = World(prog)
    st, cell = buffer_state(prog, w, held)
    E0 = Engine(prog)
    b = prog.bodies[key]
    args = [("mref", cell, ())] + [E0.fresh(st, t) if t != ("alias",) else None for t in b.locals[2:b.argc + 1]]
    if m == "unread":
        args[1] = ("s", TOK, fresh_id())
    if m == "peek_n":
        if n is not None:
            args[1] = n
        st.ghost["n"] = args[1]
    sub = {} if m in impls else {"Self": TBTY}
    E, exits = run(prog, w, key, args, sub, st, exact=None if n is None else 20)
    for s, v in exits:
        judge(w, E, s, v, args, s.ghost["B0"][2], buffered(s, cell), s.ghost["R"][2])
    finish(ck, w, E, exits, st, key, f"TokenBuffer::{m}" + ("" if n is None else f"({n}) on {held} buffered"))


def finish(ck, w, E, exits, st, key, name):
    for s, m2 in E.panics:
        w.problem(s, "order", "panics", m2)
    if not exits and not E.undecided:
        w.problem(st, "order", "never returns", "no path returns")
    report(ck, w, E, key, name, ("order", "consume"))


def j_next(w, E, s, v, args, B, have, R):
    due = B + R
    got = v[3][:1] if v[2] == 0 else ()
    if got + have != due:
        w.problem(s, "order", "next_token: wrong token or buffer",
                  f"returns {show(v)} leaving {S(have)}, where {S(due)} was due")


def j_unread(w, E, s, v, args, B, have, R):
    if have != (args[1],) + B + R:
        w.problem(s, "order", "unread: token misplaced",
                  f"after unread({show(args[1])}) the stream delivers {S(have)} instead of {S((args[1],) + B + R)}")


def j_peek(m):
    def j(w, E, s, v, args, B, have, R):
        due = B + R
        if have != due:
            w.problem(s, "order", "tokens lost or reordered", f"delivers {S(have)} where {S(due)} was due")
        got = returned(v, m)
        if got is None:
            return
        if not is_prefix(got, due):
            w.problem(s, "order", "wrong tokens returned", f"returns {show(v)} where the next tokens are {S(due)}")
        if m == "peek_n":
            t = E.cmp(s, "eq", items_len(got), s.ghost["n"])
            if E.truth(s, t) == 0:
                w.problem(s, "order", "wrong number of tokens", f"returns {items_len(got)} tokens for n={show(args[1])}")
            elif E.truth(s, t) is None and isinstance(args[1], int):
                E.undecided.append(("number of returned tokens not decided", show(t)))
    return j


@confirmed
def constructors(ck, prog):
    """new / From: an empty buffer over the given tokenizer"""
    for key, b in prog.bodies.items():
        if b.promoted is not None or not key.startswith("laps::token::") or b.kind not in ("AssocFn", "assocfn"):
            continue
        r = b.locals[0]
        if not (r[0] == "adt" and r[1] == TB) or b.argc != 1 or b.locals[1][0] != "param":
            continue
        w = World(prog)
        st = w.state()
        tn = ("s", "Tokenizer0", fresh_id())
        E, exits = run(prog, w, key, [tn], {}, st)
        name = "TokenBuffer::" + key.rsplit("::", 1)[-1]
        for s, v in exits:
            ok_ = v[0] == "agg" and tn in v[3] and all(f == tn or f[0] == "seq" and f[2] == () or f[0] == "agg"
                                                        for f in v[3])
            if not ok_:
                w.problem(s, "order", "buffer not empty", f"a new buffer is {show(v)}")
        finish(ck, w, E, exits, st, key, name)
        ck.count("constructors")


@confirmed
def until(ck, prog, m, selfty):
    impls = buffer_impls(prog)
    on_buffer = selfty == "buffer"
    key = impls.get(m, TS + m) if on_buffer else TS + m
    w = World(prog)
    if on_buffer:
        if m not in impls:
            return
        st, cell = buffer_state(prog, w)
        recv = ("mref", cell, ())
    else:
        st = w.state()
        recv = w.STREAMREF
    f = ("s", "Pred0", fresh_id())
    st.ghost["asked"] = ("seq", "asked", ())
    E, exits = run(prog, w, key, [recv, f], {}, st)
    for s, v in exits:
        B = s.ghost["B0"][2] if on_buffer else ()
        drawn = B + s.ghost["R"][2]
        left = buffered(s, cell) if on_buffer else s.ghost["P"][2]
        C = split_suffix(drawn, left)
        if C is None:
            w.problem(s, "order", "tokens lost or reordered", f"read {S(drawn)}, stream delivers {S(left)}")
            continue
        good = v[2] == 0
        expect_asked = C + left[:1] if good else C
        for t in C:
            if E.truth(s, ("t", "pred", (base(t),), "bool")) != 0:
                w.problem(s, "order", "a token is skipped without the predicate rejecting it",
                          f"{show(t)} was skipped but the predicate did not answer false for it")
        if good:
            if not left or E.truth(s, ("t", "pred", (base(left[0]),), "bool")) != 1:
                w.problem(s, "order", "stops before the predicate holds",
                          f"returns with {S(left)} next, for which the predicate did not answer true")
            if m == "collect_until" and v[3][0][2] != C:
                w.problem(s, "order", "collected tokens differ from the skipped ones",
                          f"returns {show(v)} where {S(C)} was skipped")
        if s.ghost["asked"][2] != expect_asked:
            w.problem(s, "order", "predicate not asked exactly once per token",
                      f"the predicate saw {show(s.ghost['asked'])}, tokens were {S(expect_asked)}")
    finish(ck, w, E, exits, st, key, f"{'TokenBuffer' if on_buffer else 'TokenStream'}::{m}")


def base(t):
    return t[1] if isinstance(t, tuple) and t[0] == "rev" else t


@confirmed
def expect(ck, prog):
    key = TS + "expect"
    w = World(prog)
    st = w.state()
    tok = ("s", "Expected0", fresh_id())
    E, exits = run(prog, w, key, [w.STREAMREF, tok], {}, st)
    seen = set()
    for s, v in exits:
        R, P = s.ghost["R"][2], s.ghost["P"][2]
        if not R:
            continue          # the first read failed
        nxt = R[0]
        eq = None
        for t, b in s.pt.items():
            if t[0] == "t" and t[1] == "eq" and set(t[2]) == {nxt, tok}:
                eq = b
        seen.add(eq)
        if v[2] == 0:
            if eq != 1:
                w.problem(s, "order", "accepts without comparing", "Ok although next == token is not known")
            if v[3][0] != nxt:
                w.problem(s, "order", "returns another value", f"returns {show(v)} for token {show(nxt)}")
            if P != R[1:]:
                w.problem(s, "order", "matched token not consumed exactly once", f"stream delivers {S(P)} after {S(R)}")
        elif "err" not in s.ghost:
            if eq != 0:
                w.problem(s, "order", "rejects without comparing", "Err although next != token is not known")
            if P != R:
                w.problem(s, "order", "rejected token not left in the stream", f"stream delivers {S(P)} after {S(R)}")
            e = v[3][0]
            want = ("t", "spanof", (nxt,), "laps::span::Span")
            if not (is_diag(e) and e[2][0] == want):
                w.problem(s, "order", "error not at the token", f"reports {show(e)} instead of an error at {show(want)}")
    finish(ck, w, E, exits, st, key, "TokenStream::expect")


def main():
    ck = Check("C02",
               "per method: delivered tokens == buffered tokens ++ tokens of the tokenizer, in order, each once",
               "Abstract interpretation of the type-checked MIR of token.rs over a buffer and a tokenizer of unknown "
               "content; relation between returned value, buffer and tokens drawn is checked at every return.")
    prog = program()
    constructors(ck, prog)
    buffer_run(ck, prog, "next_token", j_next)
    buffer_run(ck, prog, "unread", j_unread)
    for m in ("peek", "peek2", "peek_n"):
        buffer_run(ck, prog, m, j_peek(m))
    # the number of returned tokens is decided per requested number; their identity and
    # order, and what stays in the buffer, for every number (above)
    for n in range(4):
        for held in range(4):
            buffer_run(ck, prog, "peek_n", j_peek("peek_n"), n, held)
    for m in ("skip_until", "collect_until"):
        until(ck, prog, m, "stream")
        until(ck, prog, m, "buffer")
    expect(ck, prog)
    ck.floor("constructors", 1)
    return ck.finish()
