"""C14: derived parsers follow the declaration."""
from ..common import Check, confirmed
from ..stream import *
from ..grammar import finished, DONE
from ..lexers import witness
from .. import mir
from .c01 import report

# start tokens given with #[starts_with(...)]: the types that predict them, in order
STARTS = {"W0": ["Token0"], "W1": ["Token1", "Token2"], "W2": ["Token1", "Token0", "Token3"],
          "W3": ["Token2", "Token2"], "W4": ["Token0", "Token1"],
          "W5": ["Token0", "Token1", "Token2", "Token3", "Token0"],
          "W6": ["Token1", "Token1", "Token1", "Token0", "Token2", "Token2", "Token3", "Token0", "Token1"],
          "W7": ["Token3"]}


def declaration(prog, imp):
    """[(variant index, labels of the field types)], types of the fields"""
    t = imp["self"]
    adt = prog.adts[t[1]]
    gs = [g if isinstance(g, str) else g[0] for g in adt.get("generics", [])]
    sub = dict(zip(gs, t[2]))
    from .c06 import mir_subst
    out, types = [], set()
    for i, v in enumerate(adt["variants"]):
        fs = [mir_subst(f[1], sub) for f in v["fields"]]
        types |= set(fs)
        out.append((i, fs))
    return adt["kind"], out, types


def parse_spec(w, kind, vs):
    """the grammar: ask the first field of each variant but the last, then parse the fields"""
    d = {}
    first = None
    for n, (i, fs) in enumerate(vs):
        for k, f in enumerate(fs):
            d[f"v{n}f{k}"] = ("parse", {w.label(f): f"v{n}f{k + 1}"})
        d[f"v{n}f{len(fs)}"] = ("exit", i)
    nxt = None
    for n in reversed(range(len(vs))):
        i, fs = vs[n]
        if n == len(vs) - 1 or not fs:
            nxt = f"v{n}f0"
        else:
            d[f"q{n}"] = ("ask", w.label(fs[0]), f"v{n}f0", nxt)
            nxt = f"q{n}"
    d["start"] = nxt
    return d


def maybe_spec(w, kind, vs):
    d = {"yes": ("exit", 1), "no": ("exit", 0)}
    nxt = "no"
    for n in reversed(range(len(vs))):
        fs = vs[n][1]
        if not fs:
            nxt = "yes"
        else:
            d[f"q{n}"] = ("ask", w.label(fs[0]), "yes", nxt)
            nxt = f"q{n}"
    d["start"] = nxt
    return d


@confirmed
def parse(ck, prog, imp):
    name = "derived " + mir.ty_str(imp["self"]).split("<")[0] + "::parse"
    kind, vs, types = declaration(prog, imp)
    w = World(prog, lambda t: t in types)
    w.spec = parse_spec(w, kind, vs)
    key = imp["imap"][PARSE]
    E, exits = run(prog, w, key, [w.STREAMREF])
    for s, v in exits:
        error_discipline(w, s, v)
        if v[2] != 0:
            continue
        n = finished(w, s, v)
        C = w.consumed(s)
        if C is None or C:
            w.problem(s, "grammar", "token dropped at the end",
                      f"returns with {show(s.ghost['P'])} left of {show(s.ghost['R'])}")
        if n is None:
            continue
        x = v[3][0]
        if not (x[0] == "agg" and x[2] == n[1]):
            w.problem(s, "grammar", "wrong variant", f"returns {show(x)} where variant {n[1]} was parsed")
            continue
        logs = {k[2:]: list(s.ghost[k][2]) for k in s.ghost if k.startswith("L:")}
        for k, (f, t) in enumerate(zip(x[3], dict(vs)[n[1]])):
            want = (logs.get(w.label(t)) or [None]).pop(0)
            if strip(f) != want:
                w.problem(s, "grammar", f"field {k} of variant {n[1]}",
                          f"field {k} holds {show(f)} where {show(want)} was parsed for it")
    finish(ck, w, E, key, name, exits)
    ck.count("parsers")


def strip(v):
    while isinstance(v, tuple) and v and v[0] == "box":
        v = v[1]
    return v


def finish(ck, w, E, key, name, exits):
    for s, m in E.panics:
        w.problem(s, "grammar", "panics", m)
    if not exits and not E.undecided:
        w.problem(w.state(), "grammar", "never returns", "no path returns")
    report(ck, w, E, key, name, ("grammar", "error", "consume"))


def left_alone(w, s, v):
    if s.ghost["R"] != s.ghost["P"]:
        w.problem(s, "consume", "tokens consumed on " + ("success" if v[2] == 0 else "error"),
                  f"returns {show(v)} with {show(s.ghost['R'])} read but only {show(s.ghost['P'])} left to deliver")
    if any(k.startswith("L:") for k in s.ghost):
        w.problem(s, "consume", "parses while predicting", "runs a sub-parse")


@confirmed
def maybe(ck, prog, imp):
    short = mir.ty_str(imp["self"]).split("<")[0]
    name = "derived " + short + "::maybe"
    kind, vs, types = declaration(prog, imp)
    starts = STARTS.get(short)
    w = World(prog, (lambda t: t in types) if not starts else
              (lambda t: t in types or t[0] == "adt" and "__token_ast" in t[1]))
    key = imp["imap"][MAYBE]
    if not starts:
        w.spec = maybe_spec(w, kind, vs)
    E, exits = run(prog, w, key, [w.STREAMREF])

    def judge(s, v):
        error_discipline(w, s, v)
        left_alone(w, s, v)
        if v[2] != 0:
            return
        b = v[3][0] if isinstance(v[3][0], int) else E.decide(s, v[3][0])
        if not starts:
            n = finished(w, s, v)
            if n is not None and b != n[1]:
                w.problem(s, "grammar", "wrong answer", f"answers {bool(b)} where the declaration says {bool(n[1])}")
            return
        # the start tokens, each asked for behind the tokens before it, until one does not match
        asked = [(q[1].split("::")[-1], q[2], len(q[3][0][2])) for q in s.ghost["Q"][3]]
        want = 1
        for i, t in enumerate(starts):
            hit = [a for n, a, at in asked if n == t and at == i]
            if not hit:
                w.problem(s, "grammar", f"start token {i} is not asked for",
                          f"answers {bool(b)} without asking whether token {i} is a {t}; asked: {asked}")
                return
            if not hit[0]:
                want = 0
                break
        if b != want:
            w.problem(s, "grammar", "wrong answer", f"answers {bool(b)} where the start tokens say {bool(want)}: {asked}")
    for s, v in exits:
        E.judge(s, v, judge)
    finish(ck, w, E, key, name, exits)
    ck.count("predictions")


def main():
    ck = Check("C14",
               "the sub-parses and predictions on every path follow the automaton of the declaration, every field holds "
               "the value parsed for it, and with start tokens the answer is that of the token sequence",
               "Abstract interpretation of the implementations generated by derive(Parse) for declarations of every shape "
               "(witness/w_derive), over opaque field types, as a product with the automaton read off the declaration.")
    prog = witness(ck, "w_derive")
    if prog is None:
        return ck.finish()
    for imp in prog.impls_by_trait.get("laps::parse::Parse", []):
        s = mir.ty_str(imp["self"]).split("<")[0]
        if imp["crate"] != "w_derive" or s in ("A", "B", "C", "D", "H", "L") or s.startswith("Token"):
            continue
        parse(ck, prog, imp)
        maybe(ck, prog, imp)
    ck.floor("parsers", 35)
    ck.floor("predictions", 35)
    return ck.finish()
