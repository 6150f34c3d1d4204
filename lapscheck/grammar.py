"""The documented grammars of the predefined AST types, and runs against them."""
from .stream import *
from . import mir

DONE = {"exit": ("exit",)}


def seq_of(*names):
    """parse the given parts in order"""
    d = {}
    for i, n in enumerate(names):
        d[f"s{i}"] = ("parse", {n: f"s{i + 1}"})
    d[f"s{len(names)}"] = ("exit",)
    d["start"] = "s0"
    return d


def loop(start, **states):
    states["start"] = start
    states["end"] = ("exit",)
    return states


def parse_spec(name, args, selfname):
    """name of the type, names of its parameters"""
    a = args
    if name == "NonEmptySeq":
        T, = a
        return loop("t", t=("parse", {T: "q"}), q=("ask", T, "t", "end"))
    if name == "Vec":
        T = a[0]
        return loop("q", t=("parse", {T: "q"}), q=("ask", T, "t", "end"))
    if name == "Option":
        T = a[0]
        return loop("q", q=("ask", T, "t", "end"), t=("parse", {T: "end"}))
    if name == "Box":
        return seq_of(a[0])
    if name in ("SepSeq", "NonEmptySepSeq"):
        T, S = a
        return loop("f" if name == "SepSeq" else "t", f=("ask", T, "t", "end"), t=("parse", {T: "q"}),
                    q=("ask", S, "s", "end"), s=("parse", {S: "t"}))
    if name in ("OptSepSeq", "NonEmptyOptSepSeq"):
        T, S = a
        return loop("f" if name == "OptSepSeq" else "t", f=("ask", T, "t", "end"), t=("parse", {T: "q"}),
                    q=("ask", S, "s", "end"), s=("parse", {S: "f"}))
    if name == "NonEmptySepList":
        T, S = a
        return loop("t", t=("parse", {T: "q"}), q=("ask", S, "s", "end"), s=("parse", {S: "r"}),
                    r=("parse", {selfname: "end", T: "q"}))
    if name == "NonEmptyOptSepList":
        T, S = a
        return loop("t", t=("parse", {T: "q"}), q=("ask", S, "s", "end"), s=("parse", {S: "u"}),
                    u=("ask", T, "r", "end"), r=("parse", {selfname: "end", T: "q"}))
    if name in ("Quoted", "TokenPrefix", "tuple"):
        return seq_of(*a)
    if name in ("OptPrefix", "OptTokenPrefix"):
        P, T = a
        return loop("q", q=("ask", P, "p", "t"), p=("parse", {P: "t"}), t=("parse", {T: "end"}))
    return None


def maybe_spec(name, a, _):
    yes, no = ("exit", 1), ("exit", 0)
    d = {"yes": yes, "no": no}

    def asks(x):
        return dict(d, start="q", q=("ask", x, "yes", "no"))
    if name in ("Vec", "Option", "SepSeq", "OptSepSeq"):
        return dict(d, start="yes")
    if name in ("Box", "NonEmptySeq", "NonEmptySepSeq", "NonEmptyOptSepSeq", "NonEmptySepList",
                "NonEmptyOptSepList", "Quoted", "tuple"):
        return asks(a[0])
    if name == "OptPrefix":
        return dict(d, start="q", q=("ask", a[0], "yes", "t"), t=("ask", a[1], "yes", "no"))
    if name == "OptTokenPrefix":
        return dict(d, start="q", q=("ask", a[0], "r", "t"), r=("read", "u"), u=("ask", a[1], "yes", "no"),
                    t=("ask", a[1], "yes", "no"))
    if name == "TokenPrefix":
        return dict(d, start="q", q=("ask", a[0], "r", "no"), r=("read", "u"), u=("ask", a[1], "yes", "no"))
    return None


DROPPED = {"SepSeq": 1, "NonEmptySepSeq": 1, "OptSepSeq": 1, "NonEmptyOptSepSeq": 1}


def type_of(imp):
    """(name, parameter names, display) of an implementing type"""
    t = imp["self"]
    if t[0] == "adt":
        args = [mir.ty_str(x) for x in t[2] if not (x[0] == "adt" and "::Global" in x[1])]
        return t[1].split("::")[-1], args, mir.ty_str(t)
    if t[0] == "tuple":
        return "tuple", [mir.ty_str(x) for x in t[1]], mir.ty_str(t)
    return mir.ty_str(t), [], mir.ty_str(t)


def flatten(v):
    if not isinstance(v, tuple) or not v:
        return ()
    if v[0] in ("s", "seg", "rev", "t"):
        return (v,)
    if v[0] == "box":
        return flatten(v[1])
    if v[0] == "agg":
        return tuple(y for x in v[3] for y in flatten(x))
    if v[0] == "seq":
        return tuple(y for x in v[2] for y in flatten(x))
    return (v,)


def self_event(selfty):
    def f(t):
        return t[0] in ("param", "alias") or t == selfty
    return f


def finished(w, s, value=None):
    """the grammar must be at an end, with no superfluous questions"""
    state, asked, stuck = w.follow(s)
    if stuck is not None:
        w.problem(s, "grammar", "stops without asking " + (stuck[1] if len(stuck) > 1 else "the next token"),
                  f"returns {show(value)} where the documented grammar decides by "
                  + (f"{stuck[1]}::maybe" if stuck[0] == "ask" else "the next token") + ", which was not consulted")
        return None
    n = w.spec[state]
    if n[0] != "exit":
        w.problem(s, "grammar", "stops before " + "/".join(n[1]),
                  f"returns {show(value)} where the documented grammar goes on with {'/'.join(n[1])}")
        return None
    for q in w.extra(s, asked):
        w.problem(s, "grammar", f"asks {q}::maybe", f"asks {q}::maybe where the documented grammar does not")
    return n


def run_parse(prog, imp):
    """explore an implementation of Parse::parse; (world, engine, exits, problems filled)"""
    name, args, disp = type_of(imp)
    spec = parse_spec(name, args, disp)
    w = World(prog, self_event(imp["self"]), spec)
    key = imp["imap"][PARSE]
    E, exits = run(prog, w, key, [w.STREAMREF])
    for s, v in exits:
        error_discipline(w, s, v)
        if spec is None or v[2] != 0:
            continue
        finished(w, s, v)
        C = w.consumed(s)
        if C is None or C:
            w.problem(s, "grammar", "token dropped at the end", f"returns with {show(s.ghost['P'])} left of {show(s.ghost['R'])}")
        flat = flatten(v[3][0])
        logs = {k[2:]: s.ghost[k][2] for k in s.ghost if k.startswith("L:")}
        used = ()
        drop = args[DROPPED[name]] if name in DROPPED else None
        for lab, items in logs.items():
            if not items:
                continue
            want_l = label_of(items[0])
            got = tuple(x for x in flat if label_of(x[1] if x[0] == "rev" else x) == want_l)
            used += got
            if lab == drop:
                items = ()
            if got != items:
                w.problem(s, "grammar", f"parsed {lab} values not all in the result in order",
                          f"the result holds {show(('seq', 's', got))} where {show(('seq', 's', items))} was parsed")
        for x in flat:
            if x not in used and not (isinstance(x, tuple) and x[0] == "agg"):
                w.problem(s, "grammar", "value from nowhere", f"the result holds {show(x)}, which was not parsed")
    for s, m in E.panics:
        w.problem(s, "grammar", "panics", m)
    if not exits and not E.undecided:
        w.problem(w.state(), "grammar", "never returns", "no path returns")
    return w, E, key, f"{disp}::parse", spec is not None


def run_maybe(prog, imp):
    name, args, disp = type_of(imp)
    spec = maybe_spec(name, args, disp)
    w = World(prog, self_event(imp["self"]), spec)
    key = imp["imap"][MAYBE]
    E, exits = run(prog, w, key, [w.STREAMREF])
    def check(s, v):
        error_discipline(w, s, v)
        if spec is None or v[2] != 0:
            return
        n = finished(w, s, v)
        if n is None:
            return
        b = v[3][0] if isinstance(v[3][0], int) else E.decide(s, v[3][0])
        if b != n[1]:
            w.problem(s, "grammar", "wrong answer", f"answers {bool(b)} where the documented answer is {bool(n[1])}")
    for s, v in exits:
        E.judge(s, v, check)
    for s, m in E.panics:
        w.problem(s, "grammar", "panics", m)
    if not exits and not E.undecided:
        w.problem(w.state(), "grammar", "never returns", "no path returns")
    return w, E, key, f"{disp}::maybe", spec is not None


TUPLES = [f"tuple of {n}" for n in range(1, 27)]
NONEMPTY = ["NonEmptySeq", "NonEmptySepSeq", "NonEmptyOptSepSeq", "NonEmptySepList", "NonEmptyOptSepList", "Quoted",
            "OptPrefix", "OptTokenPrefix", "TokenPrefix", "Box"]
MAYEMPTY = ["SepSeq", "OptSepSeq", "Option", "Vec"]


def implementor(imp):
    n, a, _ = type_of(imp)
    return f"tuple of {len(a)}" if n == "tuple" else n
