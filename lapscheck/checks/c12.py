"""C12: string and character literal decoding follows the documented escapes."""
from ..common import Check, program, confirmed
from ..lits import *

FNS = {"laps::lexer::str_literal": ('"', True), "laps::lexer::char_literal": ("'", False)}


def judge(t, E, st, v, many):
    if v[2] == 1:
        t.settle(E, st, lambda s: s[2] == "reject")
        if st.ghost["spec"][2] != "accept":
            t.problem(st, "accepts an undocumented form", f"accepts {t.shown(st)}, which is not a documented form")
            return
        got = E.deref(st, v[3][0])
        got = got[2] if many else (got,)
        want = st.ghost["out"][2]
        if got == want:
            return
        if len(got) == len(want) and not any(isseg(x) for x in got + want):
            for a, b in zip(got, want):
                if a != b and not E.decide(st, E.cmp(st, "eq", a, b)):
                    t.problem(st, "decodes to another character", f"decodes {t.shown(st)} to {show(v[3][0])}, "
                              f"it denotes {show(st.ghost['out'])}")
                    return
            return
        t.problem(st, "decodes to other characters", f"decodes {t.shown(st)} to {show(v[3][0])}, "
                  f"it denotes {show(st.ghost['out'])}")
        return
    # rejected: no continuation of what was looked at may be accepted
    rest = st.ghost["rest"][2]
    while rest and not isseg(rest[0]):
        t.advance(E, st, rest[0])
        rest = rest[1:]
        st.ghost["rest"] = ("seq", "str", rest)
    if not rest:
        t.advance(E, st, None)
    if not doomed(E, st, st.ghost["spec"]):
        t.problem(st, "rejects a documented form", f"rejects {t.shown(st)}, which is or may become a documented "
                  f"form (reference state: {st.ghost['spec'][2]})")


@confirmed
def one(ck, prog, fn, quote, many):
    step, end, init = quoted(quote, many)
    t = Text(prog, step, end, init)
    st = t.state()
    E = Engine(prog, t.hooks())
    E.blur_after = 1
    E.partition = lambda st: st.ghost["spec"][2]
    exits, panics = [], []
    key = prog.by_npath(fn)[0]
    E.start(key, [("vref", t.text)], {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        E.judge(s, v, lambda s, v: judge(t, E, s, v, many))
    for s, m in panics:
        t.problem(s, "panics", "panics: " + m)
    if not exits and not E.undecided:
        t.problem(st, "never returns", "no path returns")
    name = fn.rsplit("::", 1)[-1]
    sp = prog.bodies[key].span
    ck.engine(E, name)
    for k, m, tr in t.problems:
        ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name} {m}", tr)
    ck.obligation(name, not t.problems, f"{len(exits)} exits, {E.nstates} abstract states")
    ck.count("literal_functions")
    ck.count("exits", len(exits))


def main():
    ck = Check("C12",
               "for every text: the code accepts exactly when the reference transducer of the documented forms accepts, "
               "and then yields exactly its output; it never panics",
               "Product of the MIR of the literal functions with a reference transducer for the documented escapes, by "
               "abstract interpretation over an unknown text of any length; loops to a fixpoint.")
    prog = program()
    for fn, (q, many) in FNS.items():
        one(ck, prog, fn, q, many)
    ck.floor("literal_functions", 2)
    return ck.finish()
