"""C30: lowering and simplification of regular expressions keep their meaning."""
import itertools

from ..common import Check, program, confirmed
from ..values import *
from ..lower import *
from ..std import place_of

NAMES = "ABCD"


def rep(prog, lo, hi, greedy=1):
    mx = NONE if hi is None else some(hi)
    return variant(prog, KIND, "Repetition",
                   record(prog, HIR + "Repetition", min=lo, max=mx, greedy=greedy, sub=box(hir("A"))))


def lowerings(prog, tier):
    """(name, kind of expression, sub-expressions, expected term or None for an error)"""
    A = lit("A")
    out = [("the empty expression", variant(prog, KIND, "Empty"), "", EMPTY)]
    his = range(0, 4 if tier == "quick" else 7)
    for lo in his:
        for hi in [None] + [lo + k for k in range(0, 4 if tier == "quick" else 7)]:
            n = f"A{{{lo},{'' if hi is None else hi}}}"
            out.append((n, rep(prog, lo, hi), "A", times(A, lo, hi)))
            # nothing is lost when a fixed count is not greedy
            out.append((n + "?", rep(prog, lo, hi, 0), "A", None if lo != hi else ("either", times(A, lo, hi))))
    for i, x in enumerate(prog.adts[HIR + "Look"]["variants"]):
        out.append((f"look-around {x['name']}", variant(prog, KIND, "Look", ("agg", HIR + "Look", i, ())), "", None))
    for name in (NONE, some(box(("seq", "str", (97,))))):
        cap = record(prog, HIR + "Capture", index=1, name=name, sub=box(hir("A")))
        out.append(("a group", variant(prog, KIND, "Capture", cap), "A", A))
    for n in range(1, 5):
        subs = [hir(x) for x in NAMES[:n]]
        ls = [lit(x) for x in NAMES[:n]]
        out.append((f"a sequence of {n}", variant(prog, KIND, "Concat", vec(*subs)), NAMES[:n], cat(*ls)))
        out.append((f"an alternation of {n}", variant(prog, KIND, "Alternation", vec(*subs)), NAMES[:n], alt(*ls)))
    return out


@confirmed
def lower(ck, prog, key, refused=False):
    """refused: only what must be refused"""
    sp = prog.bodies[key].span
    at = f"{sp[0]}:{sp[1]}"
    for name, top, subs, want in lowerings(prog, ck.tier):
        for bad in [""] + list(subs):
            if refused and not bad and want is not None:
                continue
            expr = name + (f" where {bad} is not supported" if bad else "")
            c = Case(prog, top, bad)
            E = c.engine()
            exits, panics = call(E, key, [hir("top")])
            ck.engine(E, expr)
            problems = [("panics", "panics: " + m, s) for s, m in panics]
            if not exits and not panics and not E.undecided:
                problems.append(("never returns", "no path returns", None))
            judged = 0
            for s, v in exits:
                if v[2] == 1:
                    if not bad and want is not None and want[0] != "either":
                        problems.append(("refused", "is refused", s))
                    judged += 1
                    continue
                if want is None:
                    problems.append(("accepted", "is accepted although it has no meaning as an automaton", s))
                    continue
                if bad and bad in c.used:
                    problems.append(("error lost", f"is accepted although its part {bad} was refused", s))
                    continue
                try:
                    term = meaning(E, s, v[3][0])
                except Undecided as e:
                    ck.undecided(expr, str(e))
                    continue
                d = differ(term, want[1] if want[0] == "either" else want)
                judged += 1
                if d and not bad:
                    problems.append(("another language", explain(d), s))
            for k, msg, s in problems:
                ck.violation(f"{expr}: {k}", at, f"{expr}: {msg}", s.trace_list() if s else [])
            ck.obligation(expr, not problems, f"{judged} results")
            ck.count("lowerings")


# ---- literals and classes -------------------------------------------------------------------------

def builders(prog):
    """[(symbol type, key of new_from_literal, key of new_from_class)]"""
    out = []
    for i in prog.impls_by_trait.get("laps_regex::mir::MirBuilder", []):
        t = i["self"]
        m = i["imap"]
        sy = t[2][0][0] if t[2][0][0] == "char" else t[2][0][1]
        out.append((sy, m.get("laps_regex::mir::MirBuilder::new_from_literal"), m.get("laps_regex::mir::MirBuilder::new_from_class")))
    return out


def plain(v):
    """without changes of representation"""
    while isinstance(v, tuple) and v[:1] == ("t",) and v[1] in ("char", "cast", "as", "from"):
        v = v[2][0]
    return v


def flat(t):
    """with plain endpoints"""
    if t[0] == "letter":
        x = t[1]
        return lit(("ranges", frozenset((plain(a), plain(b)) for a, b in x[1]))) if x[:1] == ("ranges",) else t
    if t[0] == "alt":
        return ("alt",) + tuple((flat(x), g) for x, g in t[1:])
    return (t[0],) + tuple(flat(x) for x in t[1:])


def one(x):
    return lit(("ranges", frozenset([(x, x)])))


@confirmed
def literal(ck, prog, sy, key, refused=False):
    sp = prog.bodies[key].span
    at = f"{sp[0]}:{sp[1]}"
    for n in range(0, 4 if ck.tier == "quick" else 7):
        for valid in (True, False) if sy == "char" else (True,):
            if refused and valid:
                continue
            name = f"literal of {n} bytes" + ("" if valid else " that are no UTF-8") + f" over {sy}"
            bs = [("s", "int:u8", f"byte{i}") for i in range(n)]
            chars = [("s", "char", f"char{i}") for i in range(n)]
            text = ("seq", "str", tuple(chars))

            def utf8(E, st, c):
                v = E.deref(st, c.args[0])
                if not (isinstance(v, tuple) and v[0] == "seq" and v[2] == tuple(bs)):
                    raise Undecided("text of " + show(v))
                if not valid:
                    return err(("s", "core::str::Utf8Error", "e"))
                return ok(("vref", text) if "String" not in c.npath else text)

            def lossy(E, st, c):
                return ("vref", text) if valid else ("vref", ("seq", "str", (0xFFFD,)))
            E = Case(prog).engine({"std::str::from_utf8": utf8, "std::string::String::from_utf8": utf8,
                                   "std::string::String::from_utf8_lossy": lossy})
            lv = ("agg", HIR + "Literal", 0, (box(("seq", "slice", tuple(bs))),))
            exits, panics = call(E, key, [lv])
            ck.engine(E, name)
            problems = [("panics", "panics: " + m, s) for s, m in panics]
            if not exits and not panics and not E.undecided:
                problems.append(("never returns", "no path returns", None))
            for s, v in exits:
                if v[2] == 1:
                    if valid:
                        problems.append(("refused", "is refused", s))
                    continue
                if not valid:
                    problems.append(("accepted", "is accepted", s))
                    continue
                d = differ(flat(meaning(E, s, v[3][0])), cat(*[one(x) for x in (chars if sy == "char" else bs)]))
                if d:
                    problems.append(("another language", explain(d), s))
            for k, msg, s in problems:
                ck.violation(f"{name}: {k}", at, f"{name}: {msg}", s.trace_list() if s else [])
            ck.obligation(name, not problems, f"{len(exits)} results")
            ck.count("literals")


@confirmed
def classes(ck, prog, sy, key, refused=False):
    sp = prog.bodies[key].span
    at = f"{sp[0]}:{sp[1]}"
    for kind in ("Unicode", "Bytes"):
        for n in range(0, 4):
            if refused and not (kind == "Unicode" and sy == "u8"):
                continue
            name = f"{kind} class of {n} ranges over {sy}"
            rt = HIR + f"Class{kind}Range"
            lab = "char" if kind == "Unicode" else "int:u8"
            rs = [("agg", rt, 0, (("s", lab, f"lo{i}"), ("s", lab, f"hi{i}"))) for i in range(n)]
            cls = ("s", HIR + "Class" + kind, "class")

            def ranges(E, st, c):
                return ("vref", ("seq", "slice", tuple(rs)))

            def end(i):
                def h(E, st, c):
                    return E.deref(st, c.args[0])[3][i]
                return h
            extra = {HIR + f"Class{kind}::ranges": ranges, rt + "::start": end(0), rt + "::end": end(1)}
            E = Case(prog).engine(extra)
            E.keep_names = ("char", "int:u8")
            exits, panics = call(E, key, [variant(prog, HIR + "Class", kind, cls)])
            ck.engine(E, name)
            problems = [("panics", "panics: " + m, s) for s, m in panics]
            if not exits and not panics and not E.undecided:
                problems.append(("never returns", "no path returns", None))
            want = lit(("ranges", frozenset(r[3] for r in rs)))
            for s, v in exits:
                if v[2] == 1:
                    if n and not (kind == "Unicode" and sy == "u8"):
                        problems.append(("refused", "is refused", s))
                    continue
                if kind == "Unicode" and sy == "u8":
                    problems.append(("accepted", "is accepted although its symbols are no bytes", s))
                    continue
                d = differ(flat(meaning(E, s, v[3][0])), want)
                if d:
                    problems.append(("another language", explain(d), s))
            for k, msg, s in problems:
                ck.violation(f"{name}: {k}", at, f"{name}: {msg}", s.trace_list() if s else [])
            ck.obligation(name, not problems, f"{len(exits)} results")
            ck.count("classes")


# ---- simplification -------------------------------------------------------------------------------

def forms(prog):
    """the simplified expressions an operand may have become: {name: (value, term)}"""
    def leaf(x):
        return variant(prog, MIR, "Ranges", sym(x))

    def seq(*xs):
        return variant(prog, MIR, "Concat", vec(*xs))

    def choose(*xs):
        return variant(prog, MIR, "Alter", vec(*[tuple_(x, NONE) for x in xs]))

    def many(x):
        return variant(prog, MIR, "Kleene", box(x))
    x, y, z = leaf("x"), leaf("y"), leaf("z")
    vs = {"()": variant(prog, MIR, "Empty"), "x": x, "y": y, "xy": seq(x, y), "xz": seq(x, z), "xyz": seq(x, y, z),
          "zy": seq(z, y), "x|y": choose(x, y), "y|z": choose(y, z), "xy|xz": choose(seq(x, y), seq(x, z)), "x|": choose(x, variant(prog, MIR, "Empty")),
          "|x": choose(variant(prog, MIR, "Empty"), x),
          "x*": many(x), "x*y": seq(many(x), y), "(x|z)y": seq(choose(x, z), y), "(x|y)*": many(choose(x, y))}
    small = {f: vs[f] for f in ("()", "x", "y")}

    def nest(ls, rs):
        out = {}
        for (f, a), (g, b) in itertools.product(ls.items(), rs.items()):
            out[f"({f} {g})"] = seq(a, b)
            out[f"({f}|{g})"] = choose(a, b)
        return out
    # everything of two operators, on one side of the outer one
    one = nest(small, small)
    one.update({f"{f}*": many(a) for f, a in small.items()})
    one.update({f"({f})": a(small["x"]) for f, a in (("x.", seq), ("x|.", choose))})
    two = nest(one, small) | nest(small, one) | {f"{f}*": many(a) for f, a in one.items()}
    vs |= {f"{f}'": a for f, a in (one | two).items()}
    return vs


def simplified(ck, prog, key, form, chosen, tags, share):
    """one simplification: form of the operands `chosen`, each an expression simplified to that form"""
    fs = forms(prog)
    E0 = Case(prog).engine()
    names = [NAMES[chosen.index(f)] if share else NAMES[i] for i, f in enumerate(chosen)]
    table = dict(zip(names, [fs[f] for f in chosen]))
    terms = [meaning(E0, State(), fs[f]) for f in chosen]
    ops = [mir(n) for n in names]
    if form == "Concat":
        given, want = variant(prog, MIR, "Concat", vec(*ops)), cat(*terms)
    elif form == "Kleene":
        given, want = variant(prog, MIR, "Kleene", box(ops[0])), star(terms[0])
    else:
        tv = [NONE if t is None else some(t) for t in tags]
        given = variant(prog, MIR, "Alter", vec(*[tuple_(o, t) for o, t in zip(ops, tv)]))
        want = tagged(*zip(terms, tags))
    sp = prog.bodies[key].span
    at = f"{sp[0]}:{sp[1]}"
    name = form + " of " + ", ".join(f + ("" if t is None else f" with tag {t}") for f, t in zip(chosen, tags))
    if share and len(set(names)) < len(names):
        name += " (the same expression)"
    problems, engines = [], []
    for bad in [""] + ([names[-1]] if names else []):
        c = Case(prog, forms=table, opt_fails=bad)
        E = c.engine()
        exits, panics = call(E, key, [given])
        engines.append(E)
        problems += [("panics", "panics: " + m, s) for s, m in panics]
        if not exits and not panics and not E.undecided:
            problems.append(("never returns", "no path returns", None))
        for s, v in exits:
            if v[2] == 1:
                if not bad and chosen:
                    problems.append(("refused", "is refused", s))
                continue
            if bad:
                problems.append(("error lost", f"is accepted although the operand {bad} matches nothing", s))
                continue
            if not chosen:
                problems.append(("accepted", "is accepted although it has no operands", s))
                continue
            try:
                d = differ(meaning(E, s, v[3][0]), want)
            except Undecided as e:
                ck.undecided(name, str(e))
                continue
            if d:
                problems.append(("another language", explain(d), s))
    for E in engines:
        ck.engine(E, name)
    for k, msg, s in problems:
        ck.violation(f"{name}: {k}", at, f"the simplification of {name}: {msg}", s.trace_list() if s else [])
    ck.obligation(name, not problems, f"{len(engines)} analyses")
    ck.count("simplifications")


def small_form(f):
    return f.replace("()", "").count("(") + f.count("*") < 2


def combinations(prog, tier):
    every = list(forms(prog))
    fs = [f for f in every if not f.endswith("'")]
    few = ["()", "x", "xy", "xz", "x|y", "x*"]
    out = [("Concat", (), (), 0), ("Alter", (), (), 0)]
    out += [("Kleene", (f,), (None,), 0) for f in every]
    out += [(k, (f,), (t,), 0) for f in every if f not in fs and (small_form(f) or tier == "thorough") for k, t in (("Concat", None), ("Alter", None), ("Alter", 0))]
    for n in (1, 2, 3):
        pool = fs if n < 3 or tier == "thorough" else few
        for c in itertools.product(pool, repeat=n):
            if n < 3 or tier == "thorough":
                out.append(("Concat", c, (None,) * n, 0))
            if n == 3 and tier == "quick" and len(set(c)) == 1:
                continue
            for tags in ((None,) * n, tuple(range(n))):
                out.append(("Alter", c, tags, 0))
                if len(set(c)) < n:
                    out.append(("Alter", c, tags, 1))
    return out


@confirmed
def simplify(ck, prog, key, refused=False):
    for form, chosen, tags, share in combinations(prog, ck.tier):
        if refused and len(chosen) > 1:
            continue
        simplified(ck, prog, key, form, chosen, tags, share)


# ---- the builder ----------------------------------------------------------------------------------

RE = "laps_regex::re::"
PARSE = "regex_syntax::"


class Builder(Case):
    """expressions `re0`, `re1`, ... that are parsed, lowered and simplified; stage: where which one fails"""

    def __init__(self, prog, table, utf8, stage=None, bad=None):
        super().__init__(prog, None, [bad] if stage == "lower" else [], table, [bad] if stage == "simplify" else [])
        self.utf8, self.stage, self.bad = utf8, stage, bad
        self.problems = []
        self.built = {}

    def problem(self, s, k, msg):
        self.problems.append((k, msg, s))

    def parse(self, E, st, c):
        v = E.deref(st, c.args[-1])
        if not (isinstance(v, tuple) and v[0] == "seq" and len(v[2]) == 1 and isinstance(v[2][0], int)):
            raise Undecided("parsed text " + show(v))
        n = NAMES[v[2][0] - ord("A")]
        conf = {"utf8": 1}
        if len(c.args) > 1:
            p = E.deref(st, c.args[0])
            conf = {"utf8": p[3][0]}
        if conf["utf8"] != self.utf8:
            self.problem(st, "parsed in the other mode", f"parses with utf8({bool(conf['utf8'])})")
        if self.stage == "parse" and self.bad == n:
            return err(("s", "regex_syntax::Error", n))
        return ok(hir(n))

    def parser(self, E, st, c):
        return ("agg", "@parser", 0, (1,))

    def set_utf8(self, E, st, c):
        r = c.args[0]
        loc, v = place_of(E, st, r)
        E.wr(st, loc, ("agg", "@parser", 0, (c.args[1],)))
        return r

    def changed(self, E, st, c):
        x = E.deref(st, c.args[1])
        harmless = {"unicode": 1, "case_insensitive": 0, "multi_line": 0, "dot_matches_new_line": 0, "crlf": 0, "swap_greed": 0,
                    "ignore_whitespace": 0, "octal": 0}
        m = c.npath.rsplit("::", 1)[1]
        if m in harmless and x != harmless[m]:
            self.problem(st, "parsed with another option", f"parses with {m}({show(x)})")
        return c.args[0]

    def through(self, what):
        def h(E, st, c):
            v = E.deref(st, c.args[0])
            if what == "nfa":
                n = fresh_id()
                self.built[n] = (st, v)
                return ("s", "@nfa", n)
            if isinstance(v, tuple) and v[:2] == ("s", {"dfa": "@nfa", "table": "@dfa"}[what]):
                return ("s", "@" + what, v[2])
            raise Undecided(f"{what} of {show(v)}")
        return h

    def whole(self, E, st, c):
        """no classes of symbols: the operands' ranges are free letters already"""
        return ("seq", "bmap", ())

    def triple(self, E, st, c):
        return tuple_(("seq", "vec", ()), ("seq", "map", ()), ("seq", "map", ()))

    def ranges(self, E, st, c):
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[:2] == ("s", "@mir"):
            return err(("s", "laps_regex::mir::Error", v[2])) if self.stage == "ranges" and self.bad == v[2] else ok(UNIT)
        return NotImplemented

    def same(self, E, st, c):
        v = E.deref(st, c.args[0])
        return v if isinstance(v, tuple) and v[:2] == ("s", "@mir") else NotImplemented

    def hooks(self):
        h = super().hooks()
        h[PARSE + "parse"] = h[PARSE + "parser::parse"] = self.parse
        for t in ("Parser", "parser::Parser"):
            h[PARSE + t + "::parse"] = self.parse
            h[PARSE + t + "::new"] = self.parser
        for t in ("ParserBuilder", "parser::ParserBuilder"):
            h[PARSE + t + "::new"] = self.parser
            h[PARSE + t + "::utf8"] = self.set_utf8
            h[PARSE + t + "::build"] = lambda E, st, c: E.deref(st, c.args[0])
            for m in ("unicode", "case_insensitive", "multi_line", "dot_matches_new_line", "crlf", "swap_greed", "ignore_whitespace",
                      "octal", "nest_limit", "line_terminator"):
                h[PARSE + t + "::" + m] = self.changed
        h["laps_regex::nfa::NFA::new"] = self.through("nfa")
        h["laps_regex::dfa::DFA::new"] = self.through("dfa")
        h["laps_regex::table::StateTransTable::new"] = self.through("table")
        h["laps_regex::table::StateTransTable::init_id"] = lambda E, st, c: ("s", "int:usize", "initial")
        h[MIR + "::normalize_ranges"] = self.ranges
        h[MIR + "::symbol_set"] = self.whole
        h[MIR + "::into_triple"] = self.triple
        h[MIR + "::rebuild"] = self.same
        return h


def built(ck, prog, key, utf8, chosen, tags, share):
    fs = forms(prog)
    E0 = Case(prog).engine()
    names = [NAMES[chosen.index(f)] if share else NAMES[i] for i, f in enumerate(chosen)]
    table = dict(zip(names, [fs[f] for f in chosen]))
    want = tagged(*zip([meaning(E0, State(), fs[f]) for f in chosen], tags))
    sp = prog.bodies[key].span
    at = f"{sp[0]}:{sp[1]}"
    what = prog.defs[key]["npath"].rsplit("::", 1)[1]
    name = what + " of " + (", ".join(f"{f} with tag {t}" for f, t in zip(chosen, tags)) or "nothing")
    if share and len(set(names)) < len(names):
        name += " (the same expression)"
    problems = []
    stages = [(None, None)]
    if chosen:
        stages += [(st, n) for st in ("parse", "lower", "ranges", "simplify") for n in sorted(set(names))]
    if share or len(chosen) > 2:
        stages = stages[:1]
    fields = prog.adts[RE + "RegexBuilder"]["variants"][0]["fields"]
    for stage, bad in stages:
        b = Builder(prog, table, utf8, stage, bad)
        E = b.engine()
        st = State()
        rec = []
        for n, t in fields:
            if t[0] == "adt" and t[1].endswith("::Vec"):
                rec.append(vec(*[tuple_(("seq", "str", (ord(x),)), g) for x, g in zip(names, tags)]))
            else:
                rec.append(E.fresh(st, t))
        exits, panics = [], []
        E.start(key, [("agg", RE + "RegexBuilder", 0, tuple(rec))], {}, st)
        E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
        ck.engine(E, name)
        problems += b.problems + [("panics", "panics: " + m, s) for s, m in panics]
        if not exits and not panics and not E.undecided:
            problems.append(("never returns", "no path returns", None))
        for s, v in exits:
            if v[2] == 1:
                if chosen and not bad:
                    problems.append(("refused", "is refused", s))
                elif not chosen and not (v[3][0][0] == "agg" and name_of(prog, v[3][0]) == "EmptyBuilder"):
                    problems.append(("another error", f"reports {show(v[3][0])}", s))
                elif stage == "parse":
                    e = v[3][0]
                    g = [t for n, t in zip(names, tags) if n == bad]
                    if not (e[0] == "agg" and name_of(prog, e) == "Regex" and ("s", "regex_syntax::Error", bad) in map(inner, e[3]) and e[3][1] in g):
                        problems.append(("another error", f"reports {show(e)} when expression {bad} with tag {g} does not parse", s))
                continue
            if bad:
                problems.append((f"error at {stage} lost", f"succeeds although expression {bad} is refused ({stage})", s))
                continue
            if not chosen:
                problems.append(("accepted", "is accepted although it has no expressions", s))
                continue
            t = [x for x in v[3][0][3] if isinstance(x, tuple) and x[:2] == ("s", "@table")]
            if not t:
                ck.undecided(name, "result " + show(v))
                continue
            s1, m = b.built[t[0][2]]
            try:
                d = differ(meaning(E, s1, m), want)
            except Undecided as e:
                ck.undecided(name, str(e))
                continue
            if d:
                problems.append(("another language", explain(d), s))
    for k, msg, s in problems:
        ck.violation(f"{name}: {k}", at, f"{name}: {msg}", s.trace_list() if s else [])
    ck.obligation(name, not problems, f"{len(stages)} analyses")
    ck.count("builds")


def inner(v):
    while isinstance(v, tuple) and v and v[0] == "box":
        v = v[1]
    return v


@confirmed
def refused_build(ck, prog, key, utf8):
    for c in ((), ("x",), ("x|y", "xy")):
        built(ck, prog, key, utf8, c, tuple(range(len(c))), 0)


@confirmed
def build(ck, prog, key, utf8):
    fs = list(forms(prog))
    some_fs = ["()", "x", "xy", "x|y", "x*", "xy|xz"] if ck.tier == "quick" else fs
    built(ck, prog, key, utf8, (), (), 0)
    for f in fs:
        built(ck, prog, key, utf8, (f,), (0,), 0)
    for c in itertools.product(some_fs, repeat=2):
        for tags in ((0, 1), (1, 0), (0, 0)):
            built(ck, prog, key, utf8, c, tags, 0)
            if c[0] == c[1]:
                built(ck, prog, key, utf8, c, tags, 1)
    for c in (("x", "y", "x"), ("x|y", "x", "y"), ("xy", "xz", "xy|xz")):
        for tags in itertools.permutations(range(3)):
            built(ck, prog, key, utf8, c, tags, 0)
            built(ck, prog, key, utf8, c, tags, 1)


def body(ck, prog, npath):
    keys = [k for k, d in prog.defs.items() if d["npath"] == npath and k in prog.bodies]
    if len(keys) != 1:
        ck.undecided(npath, f"{len(keys)} bodies")
        return None
    return keys[0]


def refusals(ck, prog):
    """what C24 asks of the lowering"""
    k = body(ck, prog, MIR + "::new")
    if k:
        lower(ck, prog, k, True)
    for sy, l, c in builders(prog):
        if l in prog.bodies and c in prog.bodies:
            literal(ck, prog, sy, l, True)
            classes(ck, prog, sy, c, True)
        else:
            ck.undecided("MirBuilder for " + sy, "no body")
    k = body(ck, prog, MIR + "::opt_without_rebuild")
    if k:
        simplify(ck, prog, k, True)
    for n, utf8 in (("build", 1), ("build_bytes", 0)):
        k = body(ck, prog, RE + "RegexBuilder::" + n)
        if k:
            refused_build(ck, prog, k, utf8)


def main():
    ck = Check("C30",
               "lowering a parsed regular expression and simplifying it yield an expression that stands for the same texts "
               "with the same smallest tags, or a reported error",
               "Abstract interpretation of Mir::new, of the literal and class builders, of the simplification and of "
               "RegexBuilder on every form of expression with arbitrary operands (free letters); the languages of the result "
               "and of the expected expression are compared by determinising both over the free letters.")
    prog = program(crates=("laps_regex",))
    k = body(ck, prog, MIR + "::new")
    if k:
        lower(ck, prog, k)
    for sy, l, c in builders(prog):
        if l in prog.bodies and c in prog.bodies:
            literal(ck, prog, sy, l)
            classes(ck, prog, sy, c)
        else:
            ck.undecided("MirBuilder for " + sy, "no body")
    k = body(ck, prog, MIR + "::opt_without_rebuild")
    if k:
        simplify(ck, prog, k)
    for n, utf8 in (("build", 1), ("build_bytes", 0)):
        k = body(ck, prog, RE + "RegexBuilder::" + n)
        if k:
            build(ck, prog, k, utf8)
    for n, x in (("lowerings", 60), ("literals", 8), ("classes", 16), ("simplifications", 800), ("builds", 200)):
        ck.floor(n, x)
    return ck.finish()
