"""C04: predictions of predefined ASTs answer as documented."""
import itertools

from ..common import Check, program, confirmed, provided
from ..grammar import run_maybe, implementor, NONEMPTY, MAYEMPTY, TUPLES
from ..stream import *
from .c01 import report, parse_impls, LA, TS, _self_is


@confirmed
def one(ck, prog, imp):
    w, E, key, name, known = run_maybe(prog, imp)
    if not known:
        ck.undecided(name, "no documented grammar for this type")
        return
    report(ck, w, E, key, name, ("grammar",))
    ck.count("predictions")


CELL = ("g", "la")


def chain_methods(prog):
    """construction, asking a part, reading a token, the answer"""
    out = {"new": TS + "lookahead"}
    for key, b in prog.bodies.items():
        if key.startswith("laps::token::") and b.argc >= 1 and b.kind in ("AssocFn", "assocfn") and _self_is(b.locals[1], LA):
            r = b.locals[0]
            if r[0] != "adt" or r[1] != RESULT:
                continue
            x = r[2][0]
            out["part" if _self_is(x, LA) else "answer" if x[0] == "bool" else "token"] = key
    return out


@confirmed
def chain(ck, prog, steps):
    """a lookahead chain of the given steps, for all answers of its parts"""
    ms = chain_methods(prog)
    name = "lookahead()" + "".join({"part": ".maybe(..)", "token": ".peek_next()", "answer": ".result()"}[x] for x in steps)
    for x in steps:
        if x not in ms:
            ck.undecided(name, f"the lookahead chain has no {x} method")
            return
    w = World(prog)
    todo = [(w.state(), None, ())]
    for i, step in enumerate(("new",) + steps):
        key, nxt = ms[step], []
        b = prog.bodies[key]
        for st, la, want in todo:
            st = st.copy()
            st.frames = []
            st.node = 0
            if step == "new":
                args = [w.STREAMREF]
            else:
                st.mem[CELL] = la
                args = [("mref", CELL, ()) if b.locals[1][0] == "ref" else la]
                args += [Engine(prog).fresh(st, t) for t in b.locals[2:b.argc + 1]]
            E, exits = run(prog, w, key, args, {"TA": ("param", f"part {i}")}, st)
            ck.engine(E, name)
            for s, m in E.panics:
                w.problem(s, "grammar", "panics", m)
            if not exits and not E.undecided and not E.panics:
                w.problem(st, "grammar", "never returns", "no path returns")
            for s, v in exits:
                def check(s, v):
                    nxt.append(after(w, E, s, v, step, i, want))
                E.judge(s, v, check)
        todo = [x for x in nxt if x]
    seen = set()
    for kind, k, msg, trace in w.problems:
        if kind == "grammar" and k not in seen:
            seen.add(k)
            sp = prog.bodies[ms["part"]].span
            ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name}: {msg}", trace)
    ck.obligation(name, not seen, f"{len(todo)} outcomes")
    ck.count("lookahead_chains")


def after(w, E, s, v, step, i, want):
    """the chain after a step that succeeded; want: the tokens and answers so far"""
    if step == "new":
        return s, v, ()
    if not (v[0] == "agg" and v[1] == RESULT):
        raise Undecided(f"a lookahead step returns {show(v)}")
    if v[2] != 0:
        return None
    x, R = v[3][0], s.ghost["R"][2]
    if step == "answer":
        b = x if isinstance(x, int) else E.decide(s, x)
        if bool(b) != all(a for _, a in want):
            w.problem(s, "grammar", "wrong answer", f"answers {bool(b)} where the parts answer "
                                                    + (", ".join(str(bool(a)) for _, a in want if a is not None) or "nothing"))
        return None
    if step == "token":
        if len(R) <= len(want) or x != R[len(want)]:
            w.problem(s, "grammar", "wrong token", f"hands out {show(x)} where token {len(want) + 1} of {show(s.ghost['R'])} is due")
            return None
        return s, s.mem[CELL], want + ((x, 1),)
    here = [(q[2], len(q[3][0][2])) for q in s.ghost["Q"][3] if q[1] == f"part {i}"]
    failed = not all(a for _, a in want)
    if not failed and (len(here) != 1 or here[0][1] != len(want)):
        where = ", ".join(f"after {n} token(s)" for _, n in here) or "nowhere"
        w.problem(s, "grammar", "asked elsewhere", f"part {len(want) + 1} is asked {where}, not after {len(want)} token(s)")
        return None
    return s, x, want + ((None, 0 if failed else here[0][0]),)


def chains(ck, prog):
    for n in range(0, 4 if ck.tier == "quick" else 5):
        for steps in itertools.product(("part", "token"), repeat=n):
            chain(ck, prog, steps + ("answer",))


def main():
    ck = Check("C04",
               "the questions asked and the answer given on every path follow the documented prediction; a lookahead chain's "
               "answer is the conjunction of its parts' answers, each asked one token after the one before",
               "Abstract interpretation of every Parse::maybe implementation of laps and of the lookahead chain over opaque sub-parsers, as a "
               "product with the decision automaton written down from the documentation.")
    prog = program()
    for imp in parse_impls(prog):
        one(ck, prog, imp)
    chains(ck, prog)
    provided(ck, prog, "laps::parse::Parse", NONEMPTY + MAYEMPTY + TUPLES, implementor)
    ck.floor("predictions", 20)
    return ck.finish()
