"""C32: wrappers hand out what they hold."""
from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State
from ..std import ITER
from .. import spans

MOD = "w_base::holders::"
SEQS = ("non_empty_seq", "sep_seq", "non_empty_sep_seq", "opt_sep_seq", "non_empty_opt_sep_seq")
LEXER = ("lexer_into", "lexer_ref", "lexer_mut", "lexer_next")
BUFFER = ("buffer_into", "buffer_from", "buffer_ref", "buffer_mut", "buffer_used")
READER = ("new", "stdin", "string", "str", "bytes", "path")
NEXT = "laps::lexer::Tokenize::next_token"
SEEN = "seen"
ELEM = "int:elem"


def seen(st):
    return st.ghost[SEEN][2]


def held(E, st, t, items):
    """a value of a sequence type whose vector holds the given items"""
    if t[0] == "ref":
        t = t[-1] if isinstance(t[-1], tuple) else t[1]
    a = E.prog.adts[t[1]]["variants"][0]
    return ("agg", t[1], 0, tuple(
        ("seq", "vec", items) if f[0] == "adt" and f[1].endswith("vec::Vec") else E.fresh(st, f)
        for _, f in a["fields"]))


def target(t):
    for x in t[1:]:
        if isinstance(x, tuple) and x and x[0] == "adt":
            return x
    return t


def setup(prog, name):
    key = MOD + name
    b = prog.bodies[key]
    st = State()
    st.ghost[SEEN] = ("seq", SEEN, ())
    return key, b, st


def observe(E, st, f, args):
    """the function value of the caller is called with x"""
    x = args[0]
    if isinstance(x, tuple) and x[:1] == ("agg",) and x[1] == "tuple" and len(x[3]) == 1:
        x = x[3][0]
    if isinstance(x, tuple) and x[:1] in (("vref",), ("mref",)):
        loc = x
        x = E.deref(st, x)
        if loc[0] == "mref" and isinstance(x, tuple) and x[:2] == ("s", "Inner"):
            new = ("s", x[1], fresh_id())
            st.ghost["became"] = new
            E.wr(st, ("place", loc[1], loc[2]), new)
    st.ghost[SEEN] = ("seq", SEEN, seen(st) + (x,))
    return UNIT


def outcome(ck, prog, key, hooks, st, args, judge, name):
    E = Engine(prog, hooks)
    exits, panics, problems = [], [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        m = judge(E, s, v)
        if m:
            problems.append((m[0], m[1], s.trace_list()))
    for s, m in panics:
        problems.append(("panics", f"panics: {m}", s.trace_list()))
    if not exits and not panics and not E.undecided and not E.hangs():
        problems.append(("never returns", "no path returns", []))
    ck.engine(E, name)
    if not problems:
        ck.obligation(name, True)
    b = prog.bodies[key]
    for k, m, tr in problems:
        ck.violation(f"{name}: {k}", f"{b.span[0]}:{b.span[1]}", f"{name}: {m}", tr)
        ck.obligation(name, False)
    ck.count("wrappers")


INTO_ITER = "core::iter::traits::collect::IntoIterator"


def into_iter_of(prog, t, how):
    """the body of the sequence's own into_iter"""
    for imp in prog.impls_by_trait.get(INTO_ITER, []):
        s = imp["self"]
        if how == "own" and s[:2] == t[:2] or s[0] == "ref" and s[1][:2] == t[:2] and s[2] == (how == "mut") \
                and how != "own":
            return imp["imap"].get(INTO_ITER + "::into_iter")


def sequence(E, st, what, how, t):
    items = (("seg", ELEM, fresh_id(), False),)
    v = held(E, st, t, items)
    st.ghost["items"] = ("seq", "items", items)
    if how != "own":
        st.mem[("g", "held")] = v
    return {"own": v, "ref": ("vref", v), "mut": ("mref", ("g", "held"), ())}[how]


ITERATING = {"call-opaque": observe, "iter mut": "named"}


@confirmed
def each(ck, prog, how, what):
    """the iterator begins with all elements; if it is not one of the standard library's, it is run to its end"""
    key, b, st = setup(prog, f"{how}_{what}")
    t = target(b.locals[1])
    name = "iterating " + {"ref": "&", "mut": "&mut ", "own": ""}[how] + what
    body = into_iter_of(prog, t, how)
    other = []

    def begins(E, s, r):
        if not (isinstance(r, tuple) and r[:2] == ("agg", ITER)):
            other.append(r)
        elif r[3][0][2] != s.ghost["items"][2]:
            return ("not its elements, in order",
                    f"the iterator holds {show(r[3][0])} where the sequence is {show(s.ghost['items'])}")
    if body is not None:
        E0 = Engine(prog)
        outcome(ck, prog, body, ITERATING, st, [sequence(E0, st, what, how, t)], begins, name)
        if not other:
            return
    key, b, st = setup(prog, f"{how}_{what}")

    def judge(E, s, r):
        if seen(s) != s.ghost["items"][2]:
            return ("not its elements, in order",
                    f"iterating hands out {show(s.ghost[SEEN])} of {show(s.ghost['items'])}")
    E0 = Engine(prog)
    outcome(ck, prog, key, ITERATING, st, [sequence(E0, st, what, how, t), ("s", "F", fresh_id())], judge, name)


@confirmed
def inner(ck, prog, what):
    key, b, st = setup(prog, what)
    x = ("s", "Inner", fresh_id())
    args = [x] + [("s", "F", fresh_id()) for _ in range(b.argc - 1)]
    st.ghost["x"] = x

    def judge(E, s, v):
        x, became = s.ghost["x"], s.ghost.get("became")
        if what.endswith(("_ref", "_mut")):
            if seen(s) != (x,):
                return ("another value lent", f"lends {show(s.ghost[SEEN])} where {show(x)} is held")
        if what == "lexer_next":
            t, i = v[3]
            if seen(s) != (x,):
                return ("not one token drawn", f"asks the token kind {len(seen(s))} times, with {show(s.ghost[SEEN])}")
            if t != s.ghost["result"]:
                return ("another result", f"returns {show(t)} where the token kind answered {show(s.ghost['result'])}")
            v = i
        if what.endswith(("_into", "_mut", "_next", "_from", "_used")):
            w = became if what.endswith(("_mut", "_next")) else x
            if v != w:
                return ("another value returned", f"returns {show(v)} where {show(w)} is held")

    def draw(E, st, c):
        """an inner tokenizer is asked for a token nobody wanted"""
        if E.deref(st, c.args[0])[:2] != ("s", "Inner"):
            return NotImplemented
        return next_(E, st, c)

    def next_(E, st, c):
        observe(E, st, None, [c.args[0]])
        w = E.choice(st, "token", 2)
        r = ok(("s", "Token0", fresh_id())) if w == 0 else err(E.fresh(st, ("adt", "laps::span::Error", ())))
        st.ghost["result"] = r
        return r
    outcome(ck, prog, key, {"call-opaque": observe, NEXT: next_, "laps::token::Tokenizer::next_token": draw}, st, args, judge,
            what.replace("_", ", "))


CURSOR = "std::io::Cursor"
OPEN = "std::fs::File::open"


@confirmed
def reader(ck, prog, kind, what):
    """(where the reader is, where a new input of that name starts, what it reads)"""
    key, b, st = setup(prog, f"{kind}_{what}")
    E0 = Engine(prog)
    x = ("s", "Source", fresh_id())
    args = [x]
    if what == "new":
        f = E0.fresh(st, b.locals[2])
        args += [f, f]
    if what in ("str", "bytes", "string"):
        x = ("seq", {"str": "str", "bytes": "slice", "string": "string"}[what], (("seg", "int:u8", fresh_id(), False),))
        args = [x if what == "string" else ("vref", x)]
    if what == "path":
        args = [("vref", x)]
    st.ghost["x"] = x
    st.ghost["opened"] = ("seq", "opened", ())

    def open_(E, st, c):
        p = E.deref(st, c.args[0])
        st.ghost["opened"] = ("seq", "opened", st.ghost["opened"][2] + (p,))
        w = E.choice(st, "open", 2)
        r = ("s", "File", fresh_id()) if w == 0 else ("s", "IoError", fresh_id())
        st.ghost["file"] = r
        return ok(r) if w == 0 else err(r)

    def part(E, st, c):
        """some other path made from a path"""
        p = E.deref(st, c.args[0])
        other = ("vref", ("t", c.npath.rsplit("::", 1)[-1], (p,), "Path"))
        n = c.npath.rsplit("::", 1)[-1]
        return some(other) if E.choice(st, n, 2) == 0 else NONE

    def as_ref(E, st, c):
        v = c.args[0]
        while isinstance(v, tuple) and v[:1] == ("vref",) and isinstance(v[1], tuple) and v[1][:1] in (("vref",), ("mref",)):
            v = v[1]
        x = E.deref(st, v)
        return v if x[:2] == ("s", "Source") or label_of(x) == "Path" else NotImplemented

    def plain(E, s, v):
        if not isinstance(v, tuple):
            return v
        while v[:1] in (("vref",), ("mref",), ("box",)):
            v = v[1] if v[0] != "mref" else E.deref(s, v)
        return v

    def judge(E, s, v):
        src = s.ghost["x"]
        if what == "path":
            if not s.ghost["opened"][2] or set(s.ghost["opened"][2]) != {src}:
                return ("another file", f"opens {show(s.ghost['opened'])} where {show(src)} was given")
            src = s.ghost["file"]
            if v[2] == 1:
                return None if v[3][0] == src else ("another error", f"fails with {show(v[3][0])} instead of {show(src)}")
            v = v[3][0]
        at, begin, got = v[3]
        got = plain(E, s, got)
        if isinstance(got, tuple) and got[:2] == ("agg", CURSOR):
            if got[3][0] != 0:
                return ("source not read from its start", f"reads from {show(got)}")
            got = plain(E, s, got[3][1])
        if got != src:
            return ("another source", f"reads from {show(got)} where {show(src)} was given")
        a, b_ = canon(E, s, at), canon(E, s, begin)
        if a != b_:
            return ("does not start at the beginning of its input", f"is at {show(a)} where a new input is at {show(b_)}")
    outcome(ck, prog, key, {OPEN: open_, "std::convert::AsRef::as_ref": as_ref, "std::path::Path::file_name": part,
                                       "std::path::Path::parent": part, "std::path::Path::new": as_ref, **spans.HOOKS}, st, args, judge,
            f"{'Reader' if kind == 'reader' else 'ByteReader'}, {what}")


def canon(E, s, v):
    """counters by their values"""
    v = E.deref(s, v) if isinstance(v, tuple) and v[:1] == ("mref",) else v
    if isinstance(v, tuple) and v[:2] == ("s", "atomic"):
        return lin_add(spans.base(s, v), spans.delta(s, v))
    if isinstance(v, tuple):
        return tuple(canon(E, s, x) for x in v)
    return v


def main():
    ck = Check("C32",
               "iterating over a predefined sequence hands the caller each held element once, in order; what a lexer, "
               "token buffer or reader is made from is what it lends and gives back, untouched but for what was drawn "
               "through it; a reader starts at the beginning of the input named by its constructor",
               "Abstract interpretation of the accessors, conversions and iterators, called through witness functions "
               "on opaque contents of any length.")
    prog = program("w_base", ("laps", "w_base"))
    for s in SEQS:
        for how in ("ref", "mut", "own"):
            each(ck, prog, how, s)
    for f in LEXER + BUFFER:
        inner(ck, prog, f)
    for kind in ("reader", "byte"):
        for r in READER:
            reader(ck, prog, kind, r)
    ck.floor("wrappers", 36)
    return ck.finish()
