"""C28: reporting a diagnostic never panics."""
from ..common import Check, program, confirmed, BuildFailure
from .. import spans, witfn
from ..values import *
from ..engine import MODE
from .c08 import first_error

# outside code that returns normally whatever it is given
SAFE = ("std::fs::", "std::io::", "colored::", "std::fmt::", "std::convert::", "std::path::", "std::string::ToString",
        "std::borrow::", "std::clone::Clone::clone", "std::ops::Drop::drop", "unicode_width::", "std::string::String::from",
        "std::str::methods::len", "std::str::methods::trim", "std::str::trim", "std::str::to_owned", "std::str::replace",
        "std::str::methods::replace", "std::str::lines", "std::str::repeat", "std::slice::repeat", "std::env::", "std::ops::Deref::deref", "std::default::Default")
NOPANIC_IO = {"std::io::_eprint", "std::io::_print", "std::io::stdio::_eprint", "std::io::stdio::_print"}


def text(E, st):
    return ("seq", "string", (("seg", "char", fresh_id(), False),))


def next_line(E, st, c):
    """a line of any file: there may be none, it may be unreadable, and it may contain anything"""
    k = E.choice(st, "line", 3)
    st.note(f"{c.frame.body.span[0]}:{c.line}: " + ("a line is read", "there is no such line", "the line is unreadable")[k])
    if k == 0:
        if not MODE["exact"]:
            return some(ok(text(E, st)))
        # to confirm: lines of one kind of character, of a few lengths
        n = (0, 1, MODE["exact"] - 2)[E.choice(st, "length", 3)]
        if "char" not in st.ghost:
            st.ghost["char"] = (97, 9)[E.choice(st, "char", 2)] if n else 97
        return some(ok(("seq", "string", (st.ghost["char"],) * n)))
    return NONE if k == 1 else some(err(("s", "io::Error", fresh_id())))


def width(E, st, c):
    """columns of a character: none for control characters, otherwise 0 to 2"""
    if MODE["exact"]:
        if "width" not in st.ghost:
            st.ghost["width"] = E.choice(st, "width", 3)
        w = st.ghost["width"]
        st.note(f"{c.frame.body.span[0]}:{c.line}: " + ("a control character", "a character of no width", "a wide character")[w])
        return (NONE, some(0), some(2))[w]
    if E.choice(st, "width", 2):
        return NONE
    n = E.fresh(st, ("int", "usize"))
    E.restrict(st, n, ((0, 2),))
    return some(n)


def from_usize(E, st, c):
    """widths and precisions taken from a value must fit 16 bits"""
    v = E.deref(st, c.args[0])
    # to confirm, it is enough that the value grows with the input: thousands of steps are not explored singly
    limit = 8 if MODE["exact"] else 0xFFFF
    if not E.decide(st, E.cmp(st, "le", v, limit)):
        st.note(f"{c.frame.body.span[0]}:{c.line}: a field width or precision of {show(v)}")
        if E.on_panic:
            E.on_panic(E, st, "formatting argument out of range (a width or precision above 65535)")
        raise Infeasible()
    return NotImplemented


def free(E, v):
    """built from unknown inputs only"""
    return isinstance(v, int) or v[0] == "s" or v[0] == "lin" and all(t[0] == "s" for t, _ in v[2])


def str_index(E, st, c):
    s, r = E.deref(st, c.args[0]), c.args[1]
    if not (s[0] == "seq" and s[1] in ("str", "string")):
        return NotImplemented
    bs = [E.deref(st, x) for x in r[3]] if isinstance(r, tuple) and r[0] == "agg" else [None]
    if all(b is not None and isinstance(b, int) and b == 0 for b in bs):
        return NotImplemented
    if len(s[2]) == 1 and s[2][0][0] == "seg" and all(b is not None and free(E, b) for b in bs):
        st.note(f"{c.frame.body.span[0]}:{c.line}: text of a file is cut at byte {', '.join(map(show, bs))}")
        if E.on_panic:
            E.on_panic(E, st, "the text need not be that long, or have a character boundary there")
        raise Infeasible()
    raise Undecided("slicing of a text")


def log10(E, st, c):
    """at most 10 for anything of 32 bits; rounding it keeps it so"""
    v = c.args[0]
    if isinstance(v, tuple) and v[:2] == ("t", "IntToFloat") and E.range_of(st, v[2][0])[0] >= 0 \
            and E.range_of(st, v[2][0])[1] <= 1 << 33:
        n = E.fresh(st, ("int", "usize"))
        E.restrict(st, n, ((0, 10),))
        return ("t", "IntToFloat", (n,), v[3])
    raise Undecided("logarithm")


def rounded(E, st, c):
    v = c.args[0]
    return v if isinstance(v, tuple) and v[:2] == ("t", "IntToFloat") else NotImplemented


def is_lines(E, st, v):
    v = E.deref(st, v)
    while isinstance(v, tuple) and v and v[0] in ("mref", "vref"):
        v = E.deref(st, v)
    return isinstance(v, tuple) and v[0] == "s" and "Lines<" in str(v[1]) and "BufReader" in str(v[1])


def on_next(E, st, c):
    if is_lines(E, st, c.args[0]):
        return next_line(E, st, c)
    v = E.deref(st, c.args[0])
    if isinstance(v, tuple) and v[:2] == ("s", "AnyChars"):
        return some(E.fresh(st, ("char",))) if E.choice(st, "char", 2) else NONE
    return NotImplemented


def on_nth(E, st, c):
    return next_line(E, st, c) if is_lines(E, st, c.args[0]) else NotImplemented


def on_skip(E, st, c):
    """any lines with some left out are any lines"""
    return c.args[0] if is_lines(E, st, c.args[0]) else NotImplemented


def chars(E, st, c):
    """fixpoints forget which characters a line has: any may come, the end may come at any time"""
    v = E.deref(st, c.args[0])
    if MODE["exact"] or not (v[0] == "seq" and len(v[2]) == 1 and v[2][0][0] == "seg"):
        return NotImplemented
    return ("s", "AnyChars", fresh_id())


HOOKS = dict(spans.HOOKS)
HOOKS.update({
    "std::iter::Iterator::next": on_next, "std::iter::Iterator::nth": on_nth,
    "std::str::chars": chars, "std::iter::Iterator::skip": on_skip,
    "std::f32::log10": log10, "std::f64::log10": log10,
    "std::f32::ceil": rounded, "std::f32::floor": rounded, "std::f32::round": rounded, "std::f32::trunc": rounded,
    "std::f64::ceil": rounded, "std::f64::floor": rounded, "std::f64::round": rounded, "std::f64::trunc": rounded,
    "unicode_width::UnicodeWidthChar::width": width, "unicode_width::UnicodeWidthChar::width_cjk": width,
    "std::fmt::rt::Argument::from_usize": from_usize,
    "std::ops::Index::index": str_index,
})


def havoc(E, st, c):
    if c.npath in NOPANIC_IO:
        return UNIT
    if c.npath == "std::fmt::Write::write_fmt" and isinstance(c.args[0], tuple) and c.args[0][0] == "mref":
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[:2] == ("seq", "string"):
            E.wr(st, ("place", c.args[0][1], c.args[0][2]), text(E, st))
            return ok(UNIT)     # writing to a String does not fail
    if any(c.npath.startswith(p) for p in SAFE) or not c.npath.startswith(("std::", "core::", "alloc::")) and \
            not c.npath.startswith(("laps", "w_")):
        return spans.havoc(E, st, c)
    return NotImplemented


def lines_from_1(E, st, args):
    """no operation makes a line of 0 (C07); the last line of a file of 2^32 lines is left out"""
    for a in args:
        for s in spans.spans_in(a):
            for v, (n, t) in zip(s[3], E.prog.adts[spans.SPAN]["variants"][0]["fields"]):
                if spans.is_loc(t):
                    for x, (m, _) in zip(v[3], E.prog.adts[spans.LOC]["variants"][0]["fields"]):
                        if m == "line":
                            E.restrict(st, x, ((1, (1 << 32) - 2),))


@confirmed
def one(ck, prog, key, config):
    name = key.rsplit("::ob_", 1)[-1] + f" [{config}]"
    saved = witfn.Engine

    def mk(*a, **k):
        E = saved(*a, **k)
        E.havoc = havoc
        E.strict = True
        E.counts_fit = True
        E.widen_after = 1
        E.keep_order = True
        E.max_steps = 4000000
        return E
    witfn.Engine = mk
    try:
        E, out = witfn.explore(prog, key, HOOKS, setup=lines_from_1)
    finally:
        witfn.Engine = saved
    out.problems = [p for p in out.problems if p[0] in ("panic", "diverges")]
    out.problems = [(m if k == "panic" else k, m, t) for k, m, t in out.problems]
    E.undecided = [u for u in E.undecided if not u[0].startswith("component")]
    witfn.report(ck, E, out, key, name)
    ck.count("entry_points")


def main():
    ck = Check("C28",
               "no panic, failing arithmetic check or formatting argument out of range is reachable from any logging operation",
               "Abstract interpretation of every logging operation with and without the logger feature, for any span whose "
               "lines are at least 1, any file contents (missing lines, unreadable lines, characters of any width).")
    for wit, config in (("w_base", "logger"), ("w_nolog", "no logger")):
        try:
            prog = program(wit, ("laps", wit))
        except BuildFailure as e:
            ck.violation(f"does not build [{config}]", "/repo/src/span.rs",
                         "laps does not compile in this configuration: " + first_error(e.text))
            continue
        for m in ("logs", "severity"):
            for key in witfn.functions(prog, wit, m):
                if m == "severity" or "::ob_log_" in key:
                    one(ck, prog, key, config)
    ck.floor("entry_points", 10)
    return ck.finish()
