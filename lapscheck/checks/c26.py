"""C26: token identity is the kind's identity."""
from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State
from ..stream import where
from .. import spans, fmt

TOKEN = "laps::token::Token"
KIND = "Kind"


class W:
    """opaque kinds: comparing, hashing, displaying, converting them is only recorded"""

    def __init__(self, prog):
        self.prog = prog
        names = [n for n, _ in prog.adts[TOKEN]["variants"][0]["fields"]]
        self.kind = names.index("kind")
        self.spanf = names.index("span")

    def token(self, E, st):
        k = ("s", KIND, fresh_id())
        sp = spans.fresh_span(E, st)
        f = [None, None]
        f[self.kind], f[self.spanf] = k, sp
        return ("agg", TOKEN, 0, tuple(f)), k, sp

    def opaque(self, v):
        return isinstance(v, tuple) and v[:1] == ("s",) and v[1] == KIND

    def eq(self, E, st, c):
        a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
        if self.opaque(a) and self.opaque(b):
            return ("t", "keq", (a, b), "bool")
        return NotImplemented

    def event(self, what):
        def f(E, st, c):
            a, b = E.deref(st, c.args[0]), c.args[1]
            if not self.opaque(a) and what != "fmt":
                st.ghost["did"] = ("seq", "did", st.ghost["did"][2] + (("t", what, (a, b), "bool"),))
                return UNIT
            if not self.opaque(a):
                return NotImplemented
            r = UNIT if what == "hash" else ("s", "FmtResult", fresh_id())
            st.ghost["did"] = ("seq", "did", st.ghost["did"][2] + (("t", what, (a, b), "bool"),))
            st.ghost["last"] = r
            return r
        return f

    def into(self, E, st, c):
        v = c.args[0]
        return ("t", "into", (v,), KIND)

    def unknown(self, what):
        def f(E, st, c):
            a = E.deref(st, c.args[0])
            st.ghost["did"] = ("seq", "did", st.ghost["did"][2] + (("t", what, (a,), "bool"),))
            return ("s", "FmtResult", fresh_id())
        return f

    def write(self, E, st, c):
        ps = fmt.pieces(c.args[1])
        a = E.deref(st, ps[0][1]) if ps is not None and len(ps) == 1 and ps[0][0] == "arg" else None
        if ps is None:
            raise Undecided("formatting of " + show(c.args[1]))
        r = ("s", "FmtResult", fresh_id())
        if self.opaque(a) and ps[0][2:] == ("new_display", ()):
            e = ("t", "fmt", (a, c.args[0]), "bool")
        else:
            e = ("t", "write", (repr(ps),), "bool")
        st.ghost["did"] = ("seq", "did", st.ghost["did"][2] + (e,))
        st.ghost["last"] = r
        return r

    def hooks(self):
        return {"partial_eq": self.eq, "std::hash::Hash::hash": self.event("hash"),
                "std::fmt::Display::fmt": self.event("fmt"), "std::fmt::Debug::fmt": self.event("debug"),
                "std::convert::Into::into": self.into, "std::convert::From::from": self.into,
                "std::fmt::Formatter::write_fmt": self.write, "std::fmt::Write::write_fmt": self.write, "std::fmt::Formatter::write_str": self.unknown("write"),
                "std::fmt::Formatter::pad": self.unknown("write"), "std::hash::Hasher::write": self.unknown("write")}


def run(prog, w, key, st, args):
    E = Engine(prog, w.hooks())
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    return E, exits, panics


@confirmed
def one(ck, prog, imp, method, key):
    w = W(prog)
    trait = imp["trait"]
    E0 = Engine(prog)
    st = State()
    st.ghost["did"] = ("seq", "did", ())
    t, k, sp = w.token(E0, st)
    st.mem[("g", "t")] = t
    short = trait.rsplit("::", 1)[-1]
    name = f"Token: {short}"
    args = [("vref", t)]
    if trait == "core::cmp::PartialEq":
        with_token = imp["args"][1][0] == "adt"
        name += "<Token>" if with_token else "<Kind>"
        if with_token:
            u, k2, _ = w.token(E0, st)
        else:
            u = k2 = ("s", KIND, fresh_id())
        args.append(("vref", u))
        q = ("t", "keq", (k, k2), "bool")
        q2 = ("t", "keq", (k2, k), "bool")

        def judge(E, s, v):
            b = 1 if method == "eq" else 0
            want = q if E.truth(s, q2) is None else q2
            a = v if isinstance(v, int) else E.decide(s, v)
            t = E.truth(s, want)
            if t is None:
                return f"answers {bool(a)} without comparing the kinds"
            if a != (t if b else 1 - t):
                return f"answers {bool(a)} when the kinds are {'equal' if t else 'different'}"
    elif trait in ("core::hash::Hash", "core::fmt::Display"):
        what = "hash" if trait.endswith("Hash") else "fmt"
        state = ("mref", ("g", "x"), ())
        st.mem[("g", "x")] = ("s", "State", fresh_id())
        args.append(state)

        def judge(E, s, v):
            did = s.ghost["did"][2]
            want = (("t", what, (k, state), "bool"),)
            if did != want:
                return f"does {show(('seq', 's', did))} instead of exactly one {what} of the kind"
            if what == "fmt" and v != s.ghost["last"]:
                return "does not return the result of displaying the kind"
    elif trait in ("core::borrow::Borrow", "core::convert::AsRef"):
        def judge(E, s, v):
            if E.deref(s, v) != k:
                return f"yields {show(v)}, not the kind {show(k)}"
    elif trait in ("core::borrow::BorrowMut", "core::convert::AsMut"):
        args = [("mref", ("g", "t"), ())]

        def judge(E, s, v):
            if v != ("mref", ("g", "t"), (w.kind,)):
                return f"yields {show(v)}, not the token's own kind"
            if s.mem[("g", "t")] != t:
                return "changes the token"
    elif trait == "core::clone::Clone" and method == "clone":
        def judge(E, s, v):
            if v != t:
                return f"clones {show(t)} as {show(v)}"
    elif trait == "laps::span::Spanned":
        def judge(E, s, v):
            if E.deref(s, v) != sp:
                return f"has span {show(v)}, not its own {show(sp)}"
    else:
        return
    E, exits, panics = run(prog, w, key, st, args)
    finish(ck, prog, E, exits, panics, key, name, judge)


def finish(ck, prog, E, exits, panics, key, name, judge):
    bad = []

    def f(s, v):
        m = judge(E, s, v)
        if m:
            bad.append((m, s.trace_list()))
    for s, v in exits:
        E.judge(s, v, f)
    for s, m in panics:
        bad.append(("panics: " + m, s.trace_list()))
    if not exits and not panics and not E.undecided:
        bad.append(("never returns", []))
    b = prog.bodies[key].span
    ck.engine(E, name)
    for m, tr in bad:
        ck.violation(f"{name}", f"{b[0]}:{b[1]}", f"{name}: {m}", tr)
    ck.obligation(name, not bad, f"{E.nstates} abstract states")
    ck.count("operations")


@confirmed
def new(ck, prog, key):
    w = W(prog)
    st = State()
    st.ghost["did"] = ("seq", "did", ())
    E0 = Engine(prog)
    sp = spans.fresh_span(E0, st)
    x = ("s", "T", fresh_id())
    E, exits, panics = run(prog, w, key, st, [x, sp])

    def judge(E, s, v):
        f = [None, None]
        f[w.kind], f[w.spanf] = ("t", "into", (x,), KIND), sp
        if v != ("agg", TOKEN, 0, tuple(f)):
            return f"makes {show(v)} from {show(x)} at {show(sp)}"
    finish(ck, prog, E, exits, panics, key, "Token::new", judge)


def main():
    ck = Check("C26",
               "each identity operation of a token performs exactly that operation on its kind and on nothing else",
               "Abstract interpretation of the MIR of the trait implementations of Token over an opaque kind type whose "
               "comparison, hashing, display and conversion are uninterpreted.")
    prog = program()
    for trait, imps in sorted(prog.impls_by_trait.items()):
        for imp in imps:
            if imp["self"][0] == "adt" and imp["self"][1] == TOKEN:
                for tm, key in sorted(imp["imap"].items()):
                    one(ck, prog, imp, tm.rsplit("::", 1)[-1], key)
    for key in prog.by_npath("laps::token::Token::new"):
        new(ck, prog, key)
    ck.floor("operations", 10)
    return ck.finish()
