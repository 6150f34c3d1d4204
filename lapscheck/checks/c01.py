"""C01: peeking and predicting never consume."""
from ..common import Check, program, confirmed
from ..stream import *
from .. import mir

TS = "laps::token::TokenStream::"


def report(ck, w, E, key, name, kinds):
    ck.engine(E, name)
    bad = [p for p in w.problems if p[0] in kinds]
    seen = set()
    for kind, k, msg, trace in bad:
        if k not in seen:
            seen.add(k)
            ck.violation(f"{name}: {k}", loc_of(E, key), f"{name}: {msg}", trace)
    ck.obligation(name, not bad, f"{len(E.bodies_used)} bodies, {E.nstates} abstract states")
    return not bad


def loc_of(E, key):
    s = E.prog.bodies[key].span
    return f"{s[0]}:{s[1]}"


def arg_for(E, st, t):
    if t[0] == "param" and t[1] == "TS" or t == ("ref", ("param", "TS"), True):
        return World.STREAMREF
    return E.fresh(st, t)


def returned(v, kind):
    """tokens handed back by a successful peek"""
    if v[1] == RESULT and v[2] == 0:
        x = v[3][0]
        if x[0] == "seq":
            return x[2]
        if x[0] == "agg" and x[1] == "tuple":
            return x[3]
        return (x,)
    return None


@confirmed
def check_default(ck, prog, m):
    key = TS + m
    w = World(prog)
    E0 = Engine(prog)
    st = w.state()
    args = [w.STREAMREF] + [E0.fresh(st, t) for t in prog.bodies[key].locals[2:prog.bodies[key].argc + 1]]
    E, exits = run(prog, w, key, args, {}, st)
    for s, v in exits:
        R, P = s.ghost["R"][2], s.ghost["P"][2]
        if R != P:
            w.problem(s, "consume", "tokens consumed on " + ("success" if v[2] == 0 else "error"),
                      f"returns {show(v)} with {show(s.ghost['R'])} read but only {show(s.ghost['P'])} left to deliver")
        got = returned(v, m)
        if got is not None and got != R[:len(got)]:
            w.problem(s, "consume", "wrong tokens returned", f"returns {show(v)} where the next tokens are {show(s.ghost['R'])}")
    for s, m2 in E.panics:
        w.problem(s, "consume", "panics", m2)
    if not exits and not E.undecided:
        w.problem(st, "consume", "never returns", "no path returns")
    report(ck, w, E, key, f"TokenStream::{m} (default)", ("consume",))


def buffer_state(prog, w, held=None):
    """a TokenBuffer over the unknown tokenizer holding an unknown run of tokens,
    or `held` tokens"""
    st = w.state()
    B = (("seg", TOK, fresh_id(), False),)
    if held is not None:
        B = tuple(("s", TOK, fresh_id()) for _ in range(held))
    adt = prog.adts["laps::token::TokenBuffer"]
    fields = []
    for name, t in adt["variants"][0]["fields"]:
        if t[0] == "param":
            fields.append(st.mem[SVAL])
        elif t[0] == "adt" and "vec_deque" in t[1]:
            fields.append(("seq", "deque", B))
        elif t[0] == "adt" and t[1] == "alloc::vec::Vec":
            fields.append(("seq", "vec", B))
        else:
            raise Undecided("TokenBuffer has an unexpected field " + name)
    cell = ("g", "buffer")
    st.mem[cell] = ("agg", "laps::token::TokenBuffer", 0, tuple(fields))
    st.ghost["B0"] = ("seq", "stream", B)
    st.ghost["RR"] = ("seq", "stream", ())
    return st, cell


def buffered(s, cell):
    """contents of the buffer"""
    for f in s.mem[cell][3]:
        if f[0] == "seq":
            return f[2]
    raise Undecided("no buffer field")


def buffer_impls(prog):
    out = {}
    for tr in ("laps::token::TokenStream", "laps::token::Tokenizer"):
        for imp in prog.impls_by_trait.get(tr, []):
            if imp["self"][0] == "adt" and imp["self"][1] == "laps::token::TokenBuffer":
                for tk, k in imp["imap"].items():
                    if k in prog.bodies:
                        out[tk.split("::")[-1]] = k
    return out


@confirmed
def check_buffer(ck, prog, m):
    impls = buffer_impls(prog)
    key = impls.get(m, TS + m)
    w = World(prog)
    st, cell = buffer_state(prog, w)
    E0 = Engine(prog)
    b = prog.bodies[key]
    args = [("mref", cell, ())] + [E0.fresh(st, t) for t in b.locals[2:b.argc + 1]]
    sub = {} if m in impls else {"Self": ("adt", "laps::token::TokenBuffer", (("param", "TN"), ("param", "T")))}
    E, exits = run(prog, w, key, args, sub, st)
    for s, v in exits:
        have = buffered(s, cell)
        want = s.ghost["B0"][2] + s.ghost["R"][2]
        if have != want:
            w.problem(s, "consume", "tokens consumed on " + ("success" if v[2] == 0 else "error"),
                      f"returns {show(v)}; the buffer delivers {show(('seq', 's', have))} where "
                      f"{show(('seq', 's', want))} was due")
        got = returned(v, m)
        if got is not None and not is_prefix(got, want):
            w.problem(s, "consume", "wrong tokens returned",
                      f"returns {show(v)} where the next tokens are {show(('seq', 's', want))}")
    for s, m2 in E.panics:
        w.problem(s, "consume", "panics", m2)
    if not exits and not E.undecided:
        w.problem(st, "consume", "never returns", "no path returns")
    report(ck, w, E, key, f"TokenBuffer::{m}", ("consume",))


def is_prefix(a, b):
    return a == b[:len(a)]


LA = "laps::token::Lookahead"


def lookahead_state(prog, w):
    st = w.state()
    B = ("seg", TOK, fresh_id(), False)
    P0 = ("seg", TOK, fresh_id(), False)
    st.ghost["R"] = ("seq", "stream", (B, P0))
    st.ghost["P"] = ("seq", "stream", (P0,))
    fields = []
    for name, t in prog.adts[LA]["variants"][0]["fields"]:
        if t[0] == "ref":
            fields.append(w.STREAMREF)
        elif t[0] == "adt" and t[1] == "alloc::vec::Vec":
            fields.append(("seq", "vec", (B,)))
        elif t[0] == "bool":
            fields.append(("s", "bool", fresh_id()))
        else:
            raise Undecided("Lookahead has an unexpected field " + name)
    return st, ("agg", LA, 0, tuple(fields))


def la_invariant(w, s, agg, what):
    """tokens drawn == helper's buffer followed by what the stream still delivers"""
    buf = next(f for f in agg[3] if f[0] == "seq")[2]
    R, P = s.ghost["R"][2], s.ghost["P"][2]
    if R != buf + P:
        w.problem(s, "consume", f"{what}: token lost or reordered",
                  f"after {what} the helper holds {show(('seq', 's', buf))} and the stream will deliver "
                  f"{show(s.ghost['P'])}, where {show(s.ghost['R'])} had been read")


@confirmed
def check_lookahead(ck, prog):
    # construction
    key = TS + "lookahead"
    w = World(prog)
    E, exits = run(prog, w, key, [w.STREAMREF])
    for s, v in exits:
        la_invariant(w, s, v, "construction")
    report(ck, w, E, key, "TokenStream::lookahead", ("consume",))
    inherent = [k for k, b in prog.bodies.items() if k.startswith("laps::token::") and b.argc >= 1
                and b.kind in ("AssocFn", "assocfn") and _self_is(b.locals[1], LA)]
    for key in sorted(inherent):
        b = prog.bodies[key]
        name = "Lookahead::" + key.rsplit("::", 1)[-1]
        w = World(prog)
        st, la = lookahead_state(prog, w)
        if b.locals[1][0] == "ref":
            cell = ("g", "la")
            st.mem[cell] = la
            a0 = ("mref", cell, ())
        else:
            cell = None
            a0 = la
        E0 = Engine(prog)
        args = [a0] + [E0.fresh(st, t) for t in b.locals[2:b.argc + 1]]
        E, exits = run(prog, w, key, args, {}, st)
        dropper = key.endswith("::drop")
        for s, v in exits:
            kept = s.mem.get(cell) if cell else None
            if kept is None and v[0] == "agg" and v[1] == RESULT and v[2] == 0 and _is_la(v[3][0]):
                kept = v[3][0]
            if kept is None and _is_la(v):
                kept = v
            if kept is not None and not dropper:
                la_invariant(w, s, kept, name)
                continue
            R, P = s.ghost["R"][2], s.ghost["P"][2]
            if R != P:
                w.problem(s, "consume", "tokens not put back",
                          f"returns {show(v)}; the stream will deliver {show(s.ghost['P'])} where "
                          f"{show(s.ghost['R'])} had been read")
        if not exits and not E.undecided:
            w.problem(st, "consume", "never returns", "no path returns")
        report(ck, w, E, key, name, ("consume",))
        ck.count("lookahead_methods")


def _is_la(v):
    return isinstance(v, tuple) and v and v[0] == "agg" and v[1] == LA


def _self_is(t, key):
    if t[0] == "ref":
        t = t[1]
    return t[0] == "adt" and t[1] == key


def parse_impls(prog, crate="laps"):
    return [i for i in prog.impls_by_trait.get("laps::parse::Parse", []) if i["crate"] == crate]


@confirmed
def check_maybe(ck, prog, imp):
    key = imp["imap"]["laps::parse::Parse::maybe"]
    name = mir.ty_str(imp["self"]) + "::maybe"
    w = World(prog)
    E, exits = run(prog, w, key, [w.STREAMREF])
    for s, v in exits:
        if s.ghost["R"] != s.ghost["P"]:
            w.problem(s, "consume", "tokens consumed on " + ("success" if v[2] == 0 else "error"),
                      f"returns {show(v)} with {show(s.ghost['R'])} read but only {show(s.ghost['P'])} left to deliver")
    if "L:" in "".join(k for s, v in exits for k in s.ghost):
        w.problem(exits[0][0], "consume", "parses while predicting", "runs a sub-parse")
    report(ck, w, E, key, name, ("consume",))
    ck.count("maybe_impls")


def main():
    ck = Check("C01",
               "at every return of a peek or a prediction, tokens drawn from the tokenizer == tokens the stream still delivers",
               "Abstract interpretation of the type-checked MIR (all paths, loops to a fixpoint with sequence "
               "summaries; nothing is executed) over a symbolic token stream of unknown content and unknown failures.")
    prog = program()
    for m in ("peek", "peek2", "peek_n"):
        check_default(ck, prog, m)
        check_buffer(ck, prog, m)
    check_lookahead(ck, prog)
    for imp in parse_impls(prog):
        check_maybe(ck, prog, imp)
    ck.floor("maybe_impls", 20)
    return ck.finish()
