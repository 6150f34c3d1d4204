"""Regular expressions as values, and the texts they stand for."""
from .values import *
from .engine import Engine, State
from .checks.c21 import Auto, join
from .std import structural_eq
from . import maps

MIR = "laps_regex::mir::Mir"
HIR = "regex_syntax::hir::"
KIND = HIR + "HirKind"


def hir(n):
    return ("s", "@hir", n)


def mir(n):
    return ("s", "@mir", n)


def sym(n):
    return ("s", "@letter", n)


def box(v):
    return ("box", v)


def vec(*items):
    return ("seq", "vec", tuple(items))


def variant(prog, adt, name, *fields):
    i = next(i for i, x in enumerate(prog.adts[adt]["variants"]) if x["name"] == name)
    return ("agg", adt, i, tuple(fields))


def record(prog, adt, **given):
    fs = prog.adts[adt]["variants"][0]["fields"]
    if {n for n, _ in fs} != set(given):
        raise Undecided(f"fields of {adt}")
    return ("agg", adt, 0, tuple(given[n] for n, _ in fs))


def name_of(prog, v):
    return prog.adts[v[1]]["variants"][v[2]]["name"]


# ---- languages ------------------------------------------------------------------------------------
#
# terms: ("empty",) ("never",) ("letter", x) ("cat", ...) ("alt", (term, tag or None), ...) ("star", term)

def lit(x):
    return ("letter", x)


EMPTY = ("empty",)


def cat(*ts):
    return ("cat",) + ts


def alt(*ts):
    return ("alt",) + tuple((t, None) for t in ts)


def tagged(*ps):
    return ("alt",) + ps


def star(t):
    return ("star", t)


def times(t, lo, hi):
    if hi is None:
        return cat(*([t] * lo), star(t))
    return alt(*[cat(*([t] * k)) for k in range(lo, hi + 1)])


def automaton(term):
    n = [0]

    def new():
        n[0] += 1
        return n[0]

    edges, finals = {}, {}

    def go(t, f):
        """the initial state of an automaton for t that ends in f"""
        i = new()
        out = edges.setdefault(i, [])
        if t[0] == "empty":
            out.append((None, f))
        elif t[0] == "never":
            pass
        elif t[0] == "letter":
            out.append((t[1], f))
        elif t[0] == "cat":
            for x in reversed(t[1:]):
                f = go(x, f)
            out.append((None, f))
        elif t[0] == "star":
            out.append((None, f))
            out.append((None, go(t[1], i)))
        else:
            for x, tag in t[1:]:
                g = f
                if tag is not None:
                    g = new()
                    finals[g] = tag
                    edges.setdefault(g, []).append((None, f))
                out.append((None, go(x, g)))
        return i
    f = new()
    finals[f] = None
    return Auto(go(term, f), edges, finals)


def texts(term):
    """letters of the term"""
    out = set()
    if term[0] == "letter":
        out.add(term[1])
    for x in term[1:]:
        if isinstance(x, tuple):
            out |= texts(x[0] if term[0] == "alt" else x) if x and term[0] != "letter" else set()
    return out


def verdict(a, qs):
    """accepted, and the smallest tag"""
    yes, tags = a.verdict(qs)
    return yes, min(tags) if tags else None


def differ(x, y):
    """a text that tells the two terms apart, or None"""
    a, b = automaton(x), automaton(y)
    letters = sorted(a.letters() | b.letters(), key=repr)
    todo, seen = [(a.start(), b.start(), ())], set()
    while todo:
        p, q, text = todo.pop(0)
        if (p, q) in seen:
            continue
        seen.add((p, q))
        u, v = verdict(a, p), verdict(b, q)
        if u != v:
            return text, u, v
        for s in letters:
            m, n = a.go(p, s), b.go(q, s)
            if m or n:
                todo.append((m, n, text + (s,)))
    return None


def show_letter(x):
    if isinstance(x, tuple) and x[:1] == ("ranges",):
        return "[" + " ".join(sorted(f"{show(a)}-{show(b)}" for a, b in x[1])) + "]"
    return str(x)


def explain(d):
    text, got, want = d
    say = lambda v: ("accepted" if v[0] else "rejected") + (f" with tag {v[1]}" if v[1] is not None else "")
    t = " ".join(show_letter(x) for x in text) or "the empty text"
    return f"the text {t} is {say(got)}, expected {say(want)}"


def items(E, st, v):
    v = E.deref(st, v)
    if not (isinstance(v, tuple) and v[0] == "seq") or any(isinstance(x, tuple) and x[:1] in (("seg",), ("rev",)) for x in v[2]):
        raise Undecided("elements of " + show(v))
    return v[2]


def meaning(E, st, v, leaf=lambda n: lit(n)):
    """the term of an expression"""
    v = E.deref(st, v)
    while isinstance(v, tuple) and v and v[0] == "box":
        v = E.deref(st, v[1])
    if isinstance(v, tuple) and v[:2] == ("s", "@mir"):
        return leaf(v[2])
    if not (isinstance(v, tuple) and v[:2] == ("agg", MIR) and isinstance(v[2], int)):
        raise Undecided("expression " + show(v))
    k = name_of(E.prog, v)
    if k == "Empty":
        return EMPTY
    if k == "Ranges":
        r = E.deref(st, v[3][0])
        if isinstance(r, tuple) and r[:2] == ("s", "@letter"):
            return lit(r[2])
        return lit(("ranges", frozenset(tuple(E.deref(st, x)[3]) for x in items(E, st, r))))
    if k == "Concat":
        return cat(*[meaning(E, st, x, leaf) for x in items(E, st, v[3][0])])
    if k == "Kleene":
        return star(meaning(E, st, v[3][0], leaf))
    if k != "Alter":
        raise Undecided("expression " + k)
    out = []
    for x in items(E, st, v[3][0]):
        e, t = E.deref(st, x)[3]
        t = E.deref(st, t)
        if not (isinstance(t, tuple) and t[0] == "agg" and t[2] in (0, 1)):
            raise Undecided("tag " + show(t))
        out.append((meaning(E, st, e, leaf), t[3][0] if t[2] == 1 else None))
    return tagged(*out)


# ---- the code under analysis ----------------------------------------------------------------------

class Case:
    """fails: the sub-expressions whose lowering fails; forms: {sub-expression: its optimised form}"""

    def __init__(self, prog, top=None, fails=(), forms=None, opt_fails=()):
        self.prog, self.top, self.fails, self.forms, self.opt_fails = prog, top, set(fails), forms or {}, set(opt_fails)
        self.used = []

    def lowered(self, n):
        self.used.append(n)
        return err(("s", "laps_regex::mir::Error", n)) if n in self.fails else ok(mir(n))

    def new(self, E, st, c):
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[0] == "box":
            v = E.deref(st, v[1])
        if isinstance(v, tuple) and v[:1] == ("s",) and v[1] in ("@hir", "@kind") and v[2] != "top":
            return self.lowered(v[2])
        return NotImplemented

    def kind(self, by_ref):
        def h(E, st, c):
            v = E.deref(st, c.args[0])
            if not (isinstance(v, tuple) and v[:2] == ("s", "@hir")):
                return NotImplemented
            k = self.top if v[2] == "top" else ("s", "@kind", v[2])
            return ("vref", k) if by_ref else k
        return h

    def opt(self, E, st, c):
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[:2] == ("s", "@mir"):
            if v[2] in self.opt_fails:
                return err(("s", "laps_regex::mir::Error", v[2]))
            return ok(self.forms[v[2]])
        return NotImplemented

    def hooks(self):
        h = maps.hooks()
        for n in ("::new", "::new_from_hir_kind"):
            h[MIR + n] = self.new
        old = {n: h[n] for n in ("std::convert::From::from", "std::convert::Into::into")}

        def conv(n):
            def f(E, st, c):
                r = self.new(E, st, c)
                return r if r is not NotImplemented or n not in old else old[n](E, st, c)
            return f
        for n in ("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into"):
            h[n] = conv(n)
        h[HIR + "Hir::into_kind"] = self.kind(False)
        h[HIR + "Hir::kind"] = self.kind(True)
        h[MIR + "::opt_without_rebuild"] = self.opt
        return h

    def engine(self, extra=None):
        h = self.hooks()
        h.update(extra or {})
        E = Engine(self.prog, h)
        E.fold_after = E.cut_after = 1 << 30
        E.distinct = {"@mir", "@letter", "@hir"}
        return E


def call(E, key, args, substs=None):
    """(exits, panics)"""
    st = State()
    exits, panics = [], []
    E.start(key, args, substs or {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    return exits, panics
