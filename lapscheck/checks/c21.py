"""C21: automaton construction composes languages exactly."""
import itertools

from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State
from ..powerset import Counting
from .. import maps
from .c22 import layout

FA = "laps_regex::fa::FiniteAutomaton"
NFA = "laps_regex::nfa::NFA"
MIR = "laps_regex::mir::Mir"
BASE = 500
INVARIANTS = ("nothing enters the initial state", "nothing leaves an untagged final state",
              "the initial state is not final")


def letter(n):
    return ("s", "@letter", n)


class Sub:
    """an arbitrary operand: the texts between its initial and its final states are free letters

    finals: list of tag names, None for untagged
    """

    def __init__(self, name, finals, inv, base):
        self.name, self.tags, self.base = name, finals, base
        self.init = base
        self.fs = [base + 1 + i for i in range(len(finals))]
        self.edges = {}
        a = [self.init] + self.fs

        def edge(x, y, n):
            self.edges.setdefault(x, []).append((letter(name + n), y))
        for j, f in enumerate(self.fs):
            edge(self.init, f, f"L{j}")
            if finals[j] is not None or INVARIANTS[1] not in inv:
                for k, g in enumerate(self.fs):
                    edge(f, g, f"Q{j}{k}")
                if INVARIANTS[0] not in inv:
                    edge(f, self.init, f"R{j}")
        if INVARIANTS[0] not in inv:
            edge(self.init, self.init, "P")
        self.initfinal = INVARIANTS[2] not in inv

    def finals(self):
        out = list(zip(self.fs, self.tags))
        return out + [(self.init, None)] if self.initfinal else out

    def value(self, prog):
        pos, n = layout(prog)
        states = []
        for q in [self.init] + self.fs:
            outs = tuple(tuple_(some(s), ("seq", "set", (t,))) for s, t in self.edges.get(q, []))
            states.append(tuple_(q, multi(prog, ("seq", "map", outs))))
        v = [None] * n
        v[pos["states"]] = ("seq", "map", tuple(states))
        v[pos["finals"]] = ("seq", "set", tuple(f for f, _ in self.finals()))
        v[pos["init"]] = self.init
        for i, t in pos.get("other", []):
            v[i] = ("agg", t[1], 0, ())
        fa = ("agg", FA, 0, tuple(v))
        tags = ("seq", "map", tuple(tuple_(f, ("s", "@tag", t)) for f, t in self.finals() if t is not None))
        return nfa_value(prog, fa, tags)

    def auto(self):
        return Auto(self.init, {q: list(es) for q, es in self.edges.items()}, dict(self.finals()))


def multi(prog, outs):
    fs = prog.adts["laps_regex::fa::MultiState"]["variants"][0]["fields"]
    if len(fs) != 1:
        raise Undecided("fields of MultiState")
    return ("agg", "laps_regex::fa::MultiState", 0, (outs,))


def nfa_value(prog, fa, tags):
    fs = prog.adts[NFA]["variants"][0]["fields"]
    v = []
    for n, t in fs:
        if t[0] == "adt" and t[1] == FA:
            v.append(fa)
        elif maps.kind_of_type(t) == "map":
            v.append(tags)
        else:
            raise Undecided(f"field {n} of NFA")
    return ("agg", NFA, 0, tuple(v))


class Auto:
    """init, edges {state: [(letter or None, state)]}, finals {state: tag or None}"""

    def __init__(self, init, edges, finals):
        self.init, self.edges, self.finals = init, edges, finals

    def close(self, qs):
        todo, seen = list(qs), set(qs)
        while todo:
            for s, t in self.edges.get(todo.pop(), []):
                if s is None and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def start(self):
        return self.close([self.init])

    def go(self, qs, s):
        return self.close([t for q in qs for x, t in self.edges.get(q, []) if x == s])

    def letters(self):
        return {s for es in self.edges.values() for s, _ in es if s is not None}

    def verdict(self, qs):
        fs = [q for q in qs if q in self.finals]
        return bool(fs), frozenset(self.finals[q] for q in fs if self.finals[q] is not None)


def differ(a, b):
    """a text on which the verdicts differ, or None"""
    letters = sorted(a.letters() | b.letters(), key=repr)
    todo, seen = [(a.start(), b.start(), ())], set()
    while todo:
        x, y, text = todo.pop(0)
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if a.verdict(x) != b.verdict(y):
            return text, a.verdict(x), b.verdict(y)
        for s in letters:
            m, n = a.go(x, s), b.go(y, s)
            if m or n:
                todo.append((m, n, text + (s,)))
    return None


def join(autos):
    edges, finals = {}, {}
    for a in autos:
        for q, es in a.edges.items():
            edges.setdefault(q, []).extend(es)
    return edges


def expected(form, subs, tags):
    """the automaton the textbook builds"""
    autos = [s.auto() for s in subs]
    if form == "Empty":
        return Auto("i", {}, {"i": None})
    if form == "Ranges":
        return Auto("i", {"i": [(letter("ranges"), "f")]}, {"f": None})
    edges = join(autos)
    if form == "Concat":
        for a, b in zip(autos, autos[1:]):
            for f in a.finals:
                edges.setdefault(f, []).append((None, b.init))
        return Auto(autos[0].init, edges, autos[-1].finals)
    if form == "Alter":
        finals = {}
        for i, (a, t) in enumerate(zip(autos, tags)):
            edges.setdefault("i", []).append((None, a.init))
            for f, own in a.finals.items():
                finals[f] = own
                if t is not None:
                    g = ("outer", i)
                    edges.setdefault(f, []).append((None, g))
                    finals[g] = t
        return Auto("i", edges, finals)
    if form == "Kleene":
        a = autos[0]
        edges.setdefault("i", []).append((None, a.init))
        for f in a.finals:
            edges.setdefault(f, []).append((None, "i"))
        return Auto("i", edges, {"i": None})
    raise ValueError(form)


def read(prog, v):
    """the automaton a constructed value stands for"""
    if not (isinstance(v, tuple) and v[:2] == ("agg", NFA)):
        raise Undecided("result " + show(v))
    fa = next(x for x in v[3] if x[:2] == ("agg", FA))
    tags = next(x for x in v[3] if maps.is_map(x))
    pos, _ = layout(prog)
    edges, ids = {}, []
    for e in fa[3][pos["states"]][2]:
        q, x = e[3]
        ids.append(q)
        while x[0] == "agg":
            x = x[3][0]
        for o in x[2]:
            s, ts = o[3]
            s = s[3][0] if s[2] == 1 else None
            for t in ts[2]:
                edges.setdefault(q, []).append((s, t))
    tag = {e[3][0]: e[3][1][2] for e in tags[2]}
    finals = {f: tag.get(f) for f in fa[3][pos["finals"]][2]}
    return Auto(fa[3][pos["init"]], edges, finals), ids, tag


class Build:
    def __init__(self, prog, subs):
        self.prog = prog
        self.subs = {s.name: s for s in subs}

    def new(self, E, st, c):
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[:2] == ("s", "@mir"):
            return self.subs[v[2]].value(self.prog)
        return NotImplemented

    def hooks(self, w, order):
        h = maps.hooks()
        h.update(w.hooks())
        h[NFA + "::new"] = self.new
        old = h["std::convert::From::from"]

        def conv(E, st, c):
            r = self.new(E, st, c)
            return old(E, st, c) if r is NotImplemented else r
        h["std::convert::From::from"] = h["std::convert::Into::into"] = conv
        if order is not None:
            h["keep order"] = lambda E, st, n: tuple(range(n)) if order else tuple(reversed(range(n)))
        return h


def mir_value(prog, form, subs, tags):
    i = next(i for i, x in enumerate(prog.adts[MIR]["variants"]) if x["name"] == form)
    ops = [("s", "@mir", s.name) for s in subs]
    if form == "Empty":
        p = ()
    elif form == "Ranges":
        p = (letter("ranges"),)
    elif form == "Concat":
        p = (("seq", "vec", tuple(ops)),)
    elif form == "Alter":
        p = (("seq", "vec", tuple(tuple_(o, NONE if t is None else some(("s", "@tag", t))) for o, t in zip(ops, tags))),)
    else:
        p = (("box", ops[0]),)
    return ("agg", MIR, i, p)


PROFILES = {"a": [None], "b": [None, None], "c": ["x"], "d": ["x", None]}


def cases(tier):
    """(form, profiles, tags)"""
    out = [("Empty", "", ""), ("Ranges", "", "")]
    for p in "ab":
        out.append(("Kleene", p, ""))
    for p in "abcd":
        out.append(("Concat", p, ""))
        for t in "-t":
            out.append(("Alter", p, t))
    for p in itertools.product("ab", "abcd"):
        out.append(("Concat", "".join(p), ""))
    for p in itertools.product("abcd", repeat=2):
        for t in itertools.product("-t", repeat=2):
            out.append(("Alter", "".join(p), "".join(t)))
    out += [("Concat", "aaa", ""), ("Concat", "bac", ""), ("Concat", "abd", "")]
    trip = ["aaa", "bab"] if tier == "quick" else ["".join(p) for p in itertools.product("abd", repeat=3)]
    for p in trip:
        for t in itertools.product("-t", repeat=3):
            out.append(("Alter", p, "".join(t)))
    if tier == "thorough":
        out += [("Concat", "".join(p), "") for p in itertools.product("ab", "ab", "ab", "abcd")]
        out += [("Alter", "aaaa", "".join(t)) for t in itertools.product("-t", repeat=4)]
    return out


def explore(prog, key, case, inv):
    form, profiles, ts = case
    subs, tags = [], []
    for i, p in enumerate(profiles):
        n = "ABCD"[i]
        subs.append(Sub(n, [None if t is None else n + t for t in PROFILES[p]], inv, 10 * i))
    tags = [None if t == "-" else f"t{i}" for i, t in enumerate(ts)]
    results, engines, problems = [], [], []
    orders = (None,) if len(profiles) < 2 else (True, False)
    for order in orders:
        b = Build(prog, subs)
        w = Counting(BASE)
        h = b.hooks(w, order)
        E = Engine(prog, h)
        E.fold_after = E.cut_after = 1 << 30
        st = State()
        exits, panics = [], []
        given = mir_value(prog, form, subs, tags)
        # the call itself is not one of those that are assumed
        E.start(key, [given], {}, st)
        E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
        engines.append(E)
        for s, m in panics:
            problems.append(("panics", "panics: " + m, s.trace_list()))
        if not exits and not E.undecided:
            problems.append(("never returns", "no path returns", []))
        problems += w.problems
        for s, v in exits:
            try:
                results.append((s, read(prog, v)))
            except Undecided as e:
                E.undecided.append((str(e), "result"))
    return results, engines, problems, expected(form, subs, tags)


def keeps(results, engines):
    """the invariants the constructed automata have"""
    out = set(INVARIANTS)
    for s, (a, ids, tag) in results:
        into = {t for es in a.edges.values() for _, t in es}
        if a.init in into:
            out.discard(INVARIANTS[0])
        if any(t is None and a.edges.get(q) for q, t in a.finals.items()):
            out.discard(INVARIANTS[1])
        if a.init in a.finals:
            out.discard(INVARIANTS[2])
    return out


def name_of(case):
    form, profiles, ts = case
    what = {"a": "one final state", "b": "two final states", "c": "a tagged final state", "d": "a tagged and an untagged final state"}
    ops = ", ".join(what[p] + ("" if not ts or ts[i] == "-" else " tagged again" if p in "cd" else " to be tagged")
                    for i, p in enumerate(profiles))
    return form + (f" of operands with {ops}" if ops else "")


@confirmed
def all_cases(ck, prog, key):
    inv = set(INVARIANTS)
    while True:
        done, keep = [], set(inv)
        for case in cases(ck.tier):
            r = explore(prog, key, case, inv)
            done.append((case, r))
            keep &= keeps(r[0], r[1])
        if keep == inv:
            break
        inv = keep
    ck.samples.append("operands: " + ("; ".join(sorted(inv)) or "nothing assumed"))
    sp = prog.bodies[key].span
    for case, (results, engines, problems, want) in done:
        name = name_of(case)
        for E in engines:
            ck.engine(E, name)
        bad = {}
        for k, msg, tr in problems:
            bad.setdefault(k, (msg, tr))
        for s, (a, ids, tag) in results:
            lost = {t for es in a.edges.values() for _, t in es} - set(ids)
            if lost or a.init not in ids:
                bad.setdefault("states lost", (f"has edges to {sorted(lost)}, which are no states of it", s.trace_list()))
            if set(tag) - set(a.finals):
                bad.setdefault("tagged state not final", ("tags a state that is not final", s.trace_list()))
            d = differ(a, want)
            if d:
                text = " ".join(x[2] for x in d[0]) or "the empty text"
                say = lambda v: ("accepted" if v[0] else "rejected") + (f" with {', '.join(sorted(v[1]))}" if v[1] else "")
                bad.setdefault("another language", (f"the text {text} is {say(d[1])}, expected {say(d[2])}", s.trace_list()))
        for k, (msg, tr) in bad.items():
            ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"NFA::new of {name}: {msg} (operands: {'; '.join(sorted(inv)) or 'any'})", tr)
        ck.obligation(name, not bad, f"{len(results)} automata")
        ck.count("forms")


def main():
    ck = Check("C21",
               "the automaton built for each form of expression accepts exactly the texts, with exactly the tags, that the "
               "textbook composition of its operands accepts; operands are arbitrary automata with the invariants that every "
               "built automaton is shown to have",
               "Abstract interpretation of NFA::new on each form; an operand's texts between its initial and final states are "
               "free letters, so equality holds for all languages they may stand for; the built automaton and the expected one "
               "are compared by determinising both over the free letters.")
    prog = program(crates=("laps_regex",))
    keys = [k for k, d in prog.defs.items() if d["npath"] == NFA + "::new" and k in prog.bodies]
    if len(keys) != 1:
        ck.undecided(NFA + "::new", f"{len(keys)} bodies")
    else:
        all_cases(ck, prog, keys[0])
    ck.floor("forms", 80)
    return ck.finish()
