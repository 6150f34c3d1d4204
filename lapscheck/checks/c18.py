"""C18: generated token ASTs parse what they predict, and only their token."""
from ..common import Check, confirmed
from ..stream import *
from ..lexers import witness
from .. import spans, mir
from .c01 import report

TOKEN = "laps::token::Token"
PRE = "w_token::asts::"


def setup(prog, kind):
    """a world whose next token is an unknown Token<Kind>"""
    w = World(prog)
    st = w.state()
    E0 = Engine(prog)
    k = E0.fresh(st, kind)
    sp = spans.fresh_span(E0, st)
    fs = []
    for n, t in prog.adts[TOKEN]["variants"][0]["fields"]:
        fs.append(sp if t[0] == "adt" and t[1] == spans.SPAN else k)
    t = ("agg", TOKEN, 0, tuple(fs))
    st.ghost["R"] = st.ghost["P"] = ("seq", "stream", (t,))
    return w, st, t, k, sp


def clone(E, st, c, v):
    if isinstance(v, tuple) and v and (v[0] == "agg" and v[1] in (TOKEN, spans.SPAN) or v[0] == "s"):
        return v
    return NotImplemented


def kind_of(prog, t):
    for f, (n, ty) in zip(t[3], prog.adts[TOKEN]["variants"][0]["fields"]):
        if not (ty[0] == "adt" and ty[1] == spans.SPAN):
            return f


def span_of(prog, t):
    for f, (n, ty) in zip(t[3], prog.adts[TOKEN]["variants"][0]["fields"]):
        if ty[0] == "adt" and ty[1] == spans.SPAN:
            return f


KINDTY = ("adt", "w_token::asts::Kind", ())


@confirmed
def arm(ck, prog, key, what):
    w, st, t, k, sp = setup(prog, KINDTY)
    name = key[len(PRE):].rsplit("::", 1)[0] + "::" + what
    E, exits = run(prog, w, key, [w.STREAMREF, ("vref", k)], {}, st, dict(spans.HOOKS, clone=clone))

    def judge(s, v):
        want, r = v[3]
        want = want if isinstance(want, int) else E.decide(s, want)
        R, P = s.ghost["R"][2], s.ghost["P"][2]
        t = R[0]
        if len(R) != 1:
            w.problem(s, "ast", "reads more than one token", f"{len(R)} tokens were read: {show(s.ghost['R'])}")
            return
        matches = "matches" if want else "does not match"
        if what == "maybe":
            if r[2] != 0:
                w.problem(s, "ast", "fails without cause", f"returns {show(r)} although the token could be read")
                return
            b = r[3][0] if isinstance(r[3][0], int) else E.decide(s, r[3][0])
            if b != want:
                w.problem(s, "ast", "wrong prediction", f"predicts {bool(b)} although {show(kind_of(prog, t))} {matches} the declared pattern")
            if P != R:
                w.problem(s, "ast", "prediction consumes", f"{show(s.ghost['R'])} was read, {show(s.ghost['P'])} is left")
            return
        if r[2] == 0:
            x = r[3][0]
            if not want:
                w.problem(s, "ast", "accepts another token", f"succeeds although {show(kind_of(prog, t))} does not match the declared pattern")
            elif P:
                w.problem(s, "ast", "token not consumed", f"succeeds with {show(s.ghost['P'])} left")
            elif t not in x[3]:
                w.problem(s, "ast", "another token is returned", f"returns {show(x)} for the token {show(t)}")
            return
        e = r[3][0]
        if want:
            w.problem(s, "ast", "rejects its token", f"fails although {show(kind_of(prog, t))} matches the declared pattern")
        elif not is_diag(e):
            w.problem(s, "ast", "no diagnostic", f"fails with {show(e)}, which is no diagnostic")
        elif e[2][0] != span_of(prog, t):
            w.problem(s, "ast", "error at another place", f"reports {show(e)}; the offending token is at {show(span_of(prog, t))}")
    for s, v in exits:
        E.judge(s, v, judge)
    for s, m in E.panics:
        w.problem(s, "ast", "panics", "panics: " + m)
    if not exits and not E.undecided:
        w.problem(st, "ast", "never returns", "no path returns")
    report(ck, w, E, key, name, ("ast",))
    ck.count("arms")


@confirmed
def failing(ck, prog, key, what):
    """the token cannot be read"""
    w, st, t, k, sp = setup(prog, KINDTY)
    name = key[len(PRE):].rsplit("::", 1)[0] + "::" + what + " on a failing stream"
    st.ghost["R"] = st.ghost["P"] = ("seq", "stream", ())

    def fails(E, st, c):
        if not w.opaque(E, st, c.args[0]):
            return NotImplemented
        w.event(st, "next_token")
        return w.fail(st, "next_token")
    E, exits = run(prog, w, key, [w.STREAMREF, ("vref", k)], {}, st, dict(spans.HOOKS, clone=clone, **{NEXT: fails}))
    for s, v in exits:
        error_discipline(w, s, v[3][1])
    for s, m in E.panics:
        w.problem(s, "error", "panics", "panics: " + m)
    report(ck, w, E, key, name, ("error",))


@confirmed
def value(ck, prog, key, what):
    """span, unwrap, unwrap_ref of an AST made of an unknown token"""
    w, st, t, k, sp = setup(prog, KINDTY)
    name = key[len(PRE):].rsplit("::", 1)[0] + "::" + what
    b = prog.bodies[key]
    ty = b.locals[1][1] if b.locals[1][0] == "ref" else b.locals[1]
    x = ("agg", ty[1], 0, (t,))
    st.mem[("g", "ast")] = x
    arg = ("vref", x) if b.locals[1][0] == "ref" else x
    st.ghost["R"] = ("seq", "stream", (t,))
    E, exits = run(prog, w, key, [arg], {}, st, dict(spans.HOOKS, clone=clone))
    rty = b.locals[0][1] if b.locals[0][0] == "ref" else b.locals[0]
    holders = [i for i, v in enumerate(prog.adts[KINDTY[1]]["variants"])
               if len(v["fields"]) == 1 and v["fields"][0][1] == rty]
    for s, v in exits:
        t = s.ghost["R"][2][0]
        v = E.deref(s, v)
        if what == "span":
            if v != span_of(prog, t):
                w.problem(s, "ast", "wrong span", f"the span is {show(v)}; the token's is {show(span_of(prog, t))}")
            continue
        kd = kind_of(prog, t)
        if not (kd[0] == "agg" and kd[2] in holders and v == kd[3][0]):
            w.problem(s, "ast", "wrong value", f"returns {show(v)} for the kind {show(kd)}")
    for s, m in E.panics:
        kd = kind_of(prog, s.ghost["R"][2][0])
        if what == "span" or kd[0] != "agg" or kd[2] in holders:
            w.problem(s, "ast", "panics", f"panics ({m}) for the kind {show(kd)}")
    if not exits and not E.undecided:
        w.problem(st, "ast", "never returns", "no path returns")
    report(ck, w, E, key, name, ("ast",))
    ck.count("accessors")


def main():
    ck = Check("C18",
               "for an unknown next token: prediction = declared pattern and guard with the token left alone; parse "
               "succeeds with that token iff it matches, else a diagnostic at its span; accessors return its parts",
               "Abstract interpretation of the ASTs generated by token_ast! for arms of every form (witness/w_token), "
               "over a stream whose next token has any kind and span, against a hand-written test per arm.")
    prog = witness(ck, "w_token")
    if prog is None:
        return ck.finish()
    for key in sorted(prog.bodies):
        if not key.startswith(PRE) or prog.bodies[key].promoted is not None:
            continue
        fn = key.rsplit("::", 1)[-1]
        if fn in ("run_parse", "run_maybe"):
            arm(ck, prog, key, fn[4:])
            failing(ck, prog, key, fn[4:])
        elif fn in ("run_span", "run_unwrap", "run_unwrap_ref"):
            value(ck, prog, key, fn[4:])
    ck.floor("arms", 40)
    ck.floor("accessors", 30)
    return ck.finish()
