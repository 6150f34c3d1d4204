"""C11: the provided input stream helpers are exact in terms of read and unread."""
from ..common import Check, program, confirmed
from ..stream import run, show, error_discipline, split_suffix
from ..chars import *
from .c01 import report

PLAIN = ("next_char", "next_char_span", "next_span", "peek", "peek_with_span")
UNTIL = ("skip_until", "collect_until", "collect_with_span_until")


def S(items):
    return show(("seq", "s", tuple(items)))


def opt(x):
    return NONE if x[1] == EOF else some(x)


@confirmed
def method(ck, prog, m, kinds):
    key = IS + m
    w = Chars(prog)
    st = w.state()
    b = prog.bodies[key]
    args = [w.STREAMREF] + [("s", "Pred0", fresh_id()) for _ in range(b.argc - 1)]
    E, exits = run(prog, w, key, args, {}, st)
    for s, v in exits:
        error_discipline(w, s, v)
        if "err" in s.ghost:
            if v[2] == 0:
                continue
        (plain if m in PLAIN else until)(w, E, s, v, m)
    for s, msg in E.panics:
        w.problem(s, "order", "panics", msg)
    if not exits and not E.undecided:
        w.problem(st, "order", "never returns", "no path returns")
    report(ck, w, E, key, f"InputStream::{m}", kinds)
    ck.count("methods")


def plain(w, E, s, v, m):
    R, P = s.ghost["R"][2], s.ghost["P"][2]
    if v[2] != 0:
        if "err" in s.ghost and R != P:
            w.problem(s, "order", "consumes on error", f"has read {S(R)} but only {S(P)} is left to deliver")
        return
    if len(R) != 1:
        w.problem(s, "order", "not one read", f"reads {S(R)} instead of one character")
        return
    x = R[0]
    got = E.deref(s, v[3][0])
    sp = w.span_at(x)
    want = {"next_char": opt(x), "next_char_span": tuple_(opt(x), sp), "next_span": sp,
            "peek": opt(x), "peek_with_span": tuple_(opt(x), sp)}[m]
    if got != want:
        w.problem(s, "order", "wrong result", f"returns {show(got)} instead of {show(want)}")
    left = R if m.startswith("peek") else ()
    if P != left:
        w.problem(s, "order", "peeked character not put back" if left else "character put back",
                  f"the stream delivers {S(P)} after the call, expected {S(left)}")


def pred(E, s, c):
    return E.truth(s, ("t", "pred", (c[1] if c[0] == "rev" else c,), "bool"))


def until(w, E, s, v, m):
    R, P = s.ghost["R"][2], s.ghost["P"][2]
    C = split_suffix(R, P)
    if C is None:
        w.problem(s, "order", "characters lost or reordered", f"read {S(R)}, stream delivers {S(P)}")
        return
    asked = s.ghost["asked"][2]
    chars = tuple(x for x in R if x[1] == CH)
    good = v[2] == 0
    for x in C:
        if x[1] == EOF:
            w.problem(s, "order", "consumes the end of input", f"end of input {show(x)} is not left for the next read")
        elif pred(E, s, x) != 0:
            w.problem(s, "order", "a character is skipped without the predicate rejecting it",
                      f"{show(x)} was consumed but the predicate did not answer false for it")
    if good:
        if not P or P[0][1] == CH and pred(E, s, P[0]) != 1:
            w.problem(s, "order", "stops before the predicate holds",
                      f"returns with {S(P)} next, for which the predicate did not answer true")
        if asked != chars:
            w.problem(s, "order", "predicate not asked exactly once per character",
                      f"the predicate saw {S(asked)}, the characters are {S(chars)}")
    elif asked != chars[:len(asked)] or len(asked) + 1 < len(chars):
        w.problem(s, "order", "predicate not asked exactly once per character",
                  f"the predicate saw {S(asked)}, the characters are {S(chars)}")
    if not good:
        return
    x = v[3][0]
    if m == "collect_until" and x[2] != C:
        w.problem(s, "order", "collected characters differ from the consumed ones",
                  f"returns {show(x)} where {S(C)} was consumed")
    if m == "collect_with_span_until":
        got, sp = x[3]
        if got[2] != C:
            w.problem(s, "order", "collected characters differ from the consumed ones",
                      f"returns {show(got)} where {S(C)} was consumed")
        if C:
            si, ei = start_field(w.prog)
            f, l = w.span_at(C[0]), w.span_at(C[-1])
            if C[0][0] in ("seg", "rev") or C[-1][0] in ("seg", "rev"):
                E.undecided.append(("first or last collected character not singled out", show(sp)))
            elif sp[3][si] != f[3][si] or sp[3][ei] != l[3][ei]:
                w.problem(s, "order", "wrong span", f"returns span {show(sp)} for characters {S(C)}")


def main():
    ck = Check("C11",
               "per helper: one read (undone by peeks), or: consumed characters are exactly those the predicate rejected "
               "before the first accepted one or the end of input, each asked about once, collected in order, spanned "
               "from first to last",
               "Abstract interpretation of the MIR of the provided methods of InputStream over an opaque stream of "
               "unknown characters whose reads may end or fail at any time, with an opaque predicate.")
    prog = program()
    for m in PLAIN + UNTIL:
        method(ck, prog, m, ("order",))
    ck.floor("methods", 8)
    return ck.finish()
