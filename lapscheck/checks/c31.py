"""C31: diagnostics say what they were given, and where."""
from ..common import Check, program, confirmed, BuildFailure
from .. import spans, witfn, texts
from ..texts import Printer, flat, shown, text_of, behind
from ..values import *
from ..engine import Engine, State, MODE
from ..stream import World, run, NEXT
from ..lexers import witness, LexWorld
from .. import lexers, lexspecs
from . import c18, c28
from .c08 import first_error

LOGS = {  # method -> (severity, does it say where)
    "log_error": ("error", True), "log_fatal_error": ("error", True), "log_warning": ("warning", True),
    "log_raw_error": ("error", False), "log_raw_fatal_error": ("error", False), "log_raw_warning": ("warning", False),
}


def lit(s):
    return tuple(map(ord, s))


def explore(prog, p, key, args, st, setup=None):
    E = Engine(prog, p.hooks())
    E.havoc = c28.havoc
    E.counts_fit = True
    E.keep_order = True
    E.max_steps = 4000000
    if setup:
        setup(E, st)
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    return E, exits


def finish(ck, p, E, key, name, exits):
    ck.engine(E, name)
    seen = set()
    s = E.prog.bodies[key].span
    for k, msg, tr in p.bad:
        if k not in seen:
            seen.add(k)
            ck.violation(f"{name}: {k}", witfn.blame(tr) or f"{s[0]}:{s[1]}", f"{name}: {msg}", tr)
    if not exits and not E.undecided and not seen:
        ck.violation(f"{name}: never returns", f"{s[0]}:{s[1]}", f"{name}: no path returns")
    ck.obligation(name, not seen, f"{len(exits)} exits, {E.nstates} abstract states")


def message(E, st):
    return ("s", "fmt::Arguments", fresh_id())


def method(prog, m):
    key, = prog.by_npath("laps::span::Span::" + m)
    return key


def parts(prog, E0, st):
    sp = spans.fresh_span(E0, st)
    start, end = texts.field(prog, sp, "start"), texts.field(prog, sp, "end")
    return sp, start, end


def file_of(prog, sp):
    """the input's name: the only part of a span of that type"""
    def find(v):
        if isinstance(v, tuple) and v:
            if v[0] == "s" and v[1] == texts.FT or v[0] == "agg" and v[1] == texts.FT:
                return v
            for x in v[1:] if v[0] != "agg" else v[3]:
                r = find(x) if isinstance(x, tuple) else None
                if r is not None:
                    return r
        return None
    return find(sp)


@confirmed
def report(ck, prog, m, kind):
    """the logger's report for a file, standard input or a buffer"""
    sev, where = LOGS[m]
    key = method(prog, m)
    name = f"{m} [logger, {kind}]"
    p = Printer(prog)
    st = State()
    E0 = Engine(prog)
    sp, start, end = parts(prog, E0, st)
    ft = file_of(prog, sp)
    vs = [v["name"] for v in prog.adts[texts.FT]["variants"]]
    i = vs.index(kind)
    f = ("agg", texts.FT, i, tuple(E0.fresh(st, t) for _, t in prog.adts[texts.FT]["variants"][i]["fields"]))
    sp = replaced(sp, ft, f)
    msg = message(E0, st)
    want = lit(sev + ": ") + (shown(msg),) + lit("\n")
    l0, c0 = texts.field(prog, start, "line"), texts.field(prog, start, "col")
    l1, c1 = texts.field(prog, end, "line"), texts.field(prog, end, "col")
    st.ghost["PLACE"] = ("seq", "place", (l0, c0, l1, c1))      # facts about these stay with them
    st.ghost["WANT"] = ("seq", "want", want)
    if where:
        st.ghost["WANT"] = ("seq", "want", want + lit("  at ") + tuple(texts.file_type(E0, st, f)) + lit(":")
                            + (shown(l0),) + lit(":") + (shown(c0),) + lit("\n"))
        if kind == "File":
            st.ghost.update(ROW=l0, CUR=0, POS=0, DOTS=0, SOME=0, BARE=0, HAVE=None, UNREADABLE=0)

    def setup(E, st):
        c28.lines_from_1(E, st, [sp])

    E, exits = explore(prog, p, key, [("vref", sp), msg], st, setup)

    def judge(s, v):
        rest = s.ghost["WANT"][2]
        if rest:
            p.problem(s, "text", f"ends without {text_of(rest)!r}")
            return
        if s.ghost.get("UNREADABLE") or "ROW" not in s.ghost:
            return
        l0, c0, l1, c1 = s.ghost["PLACE"][2]
        if not s.ghost["SOME"]:
            if all(E.decide(s, x) for x in (E.cmp(s, "le", 1, c0), E.cmp(s, "le", 1, c1))) and \
                    (E.decide(s, E.cmp(s, "eq", l0, l1)) or E.decide(s, E.cmp(s, "lt", l0, l1))):
                p.problem(s, "rows", "shows no line of a file that can be read")
        elif not E.decide(s, E.cmp(s, "eq", s.ghost["CUR"], l1)):
            p.problem(s, "rows", f"the last line shown is {show(s.ghost['CUR'])}, the span ends in line {show(l1)}")
    for s, v in exits:
        E.judge(s, v, judge)
    finish(ck, p, E, key, name, exits)
    ck.count("reports")


def replaced(v, a, b):
    if v == a:
        return b
    return tuple(replaced(x, a, b) for x in v) if isinstance(v, tuple) else v


@confirmed
def carried(ck, prog, m):
    """without the logger the error carries the text"""
    sev, where = LOGS[m]
    key = method(prog, m)
    name = f"{m} [no logger]"
    p = Printer(prog)
    st = State()
    E0 = Engine(prog)
    sp, start, end = parts(prog, E0, st)
    ft = file_of(prog, sp)
    msg = message(E0, st)
    st.ghost["WANT"] = ("seq", "want", ())
    st.ghost["TEXT"] = ("seq", "text", ((shown(ft),) + lit(":") + (shown(texts.field(prog, start, "line")),) + lit(":")
                                        + (shown(texts.field(prog, start, "col")),) + lit(": ") if where else ())
                        + (shown(msg),))
    E, exits = explore(prog, p, key, [("vref", sp), msg], st)
    def judge(s, v):
        if v == UNIT and sev == "warning":
            return
        got = flat(E, s, v[3][0])
        want = s.ghost["TEXT"][2]
        if len(got) != len(want) or not all(texts.same(E, s, a, b) for a, b in zip(got, want)):
            p.problem(s, "text", f"carries {text_of(got)!r}, expected {text_of(want)!r}")
    for s, v in exits:
        E.judge(s, v, judge)
    finish(ck, p, E, key, name, exits)
    ck.count("reports")


@confirmed
def summary(ck, prog, ne, nw):
    key = method(prog, "log_summary")
    name = f"log_summary with {('no', 'one', 'several')[ne]} errors and {('no', 'one', 'several')[nw]} warnings"
    p = Printer(prog)
    st = State()
    E0 = Engine(prog)
    sp, start, end = parts(prog, E0, st)
    counts = {}

    def setup(E, st):
        for m, n in (("error_num", ne), ("warning_num", nw)):
            x, = [v for _, v in explore(prog, Printer(prog), method(prog, m), [("vref", sp)], State())[1]]
            counts[m] = x
            E.assume(st, E.cmp(st, "eq", x, n) if n < 2 else E.cmp(st, "le", 2, x), 1)
        ps = []
        for m, n, w in (("error_num", ne, "error"), ("warning_num", nw, "warning")):
            if n:
                ps.append((shown(counts[m]),) + lit(" " + w + ("s" if n > 1 else "")))
        want = ps[0] if ps else ()
        for q in ps[1:]:
            want += lit(" and ") + q
        st.ghost["WANT"] = ("seq", "want", want + lit(" emitted\n"))
    E, exits = explore(prog, p, key, [("vref", sp)], st, setup)
    for s, v in exits:
        if s.ghost["WANT"][2]:
            p.problem(s, "text", f"ends without {text_of(s.ghost['WANT'][2])!r}")
    finish(ck, p, E, key, name, exits)
    ck.count("summaries")


@confirmed
def display(ck, prog, what, kind=None):
    """Display of locations, spans and file types"""
    ty = {"Location": spans.LOC, "Span": spans.SPAN, "FileType": texts.FT}[what]
    name = f"{what} as text" + (f" ({kind})" if kind else "")
    imps = [i for i in prog.impls_by_trait.get("core::fmt::Display", []) if i["self"] == ("adt", ty, ())]
    if len(imps) != 1:
        ck.undecided(name, f"{len(imps)} implementations")
        return
    key = dict((i[0], i[1]) for i in imps[0]["items"])["fmt"]
    p = Printer(prog)
    st = State()
    E0 = Engine(prog)
    if what == "FileType":
        vs = [v["name"] for v in prog.adts[ty]["variants"]]
        i = vs.index(kind)
        v = ("agg", ty, i, tuple(E0.fresh(st, t) for _, t in prog.adts[ty]["variants"][i]["fields"]))
    else:
        v = spans.fresh_span(E0, st)
        v = texts.field(prog, v, "start") if what == "Location" else v
    st.ghost["TEXT"] = ("seq", "text", tuple(flat(E0, st, v)))
    st.ghost["WANT"] = ("seq", "want", ())
    st.ghost["OUT"] = ("seq", "out", ())
    st.mem[("g", "f")] = ("s", "Formatter", 0)
    E, exits = explore(prog, p, key, [("vref", v), ("mref", ("g", "f"), ())], st)
    def judge(s, r):
        got, want = s.ghost["OUT"][2], s.ghost["TEXT"][2]
        if len(got) != len(want) or not all(texts.same(E, s, a, b) for a, b in zip(got, want)):
            p.problem(s, "text", f"displays as {text_of(got)!r}, expected {text_of(want)!r}")
    for s, r in exits:
        E.judge(s, r, judge)
    finish(ck, p, E, key, name, exits)
    ck.count("displays")


def complaint(w, judge):
    """log_error with its text judged"""
    def h(E, st, c):
        got = texts.template(E, st, c.args[1])
        st.note(f"{c.frame.body.span[0]}:{c.line}: reports {text_of(got)!r}")
        judge(E, st, got)
        return ("t", "log_error", (E.deref(st, c.args[0]),), "laps::span::Error")
    return h


def whole(got):
    """literal text with the shown values cut out, and these"""
    s, vs = "", []
    for x in got:
        if isinstance(x, int):
            s += chr(x)
        else:
            s += "\0"
            vs.append(x[2][0] if x[1] == "shown" and x[2][1] == "new_display" else None)
    return s, vs


@confirmed
def expect(ck, prog):
    """a token that is not the expected one: both are named"""
    name = "TokenStream::expect"
    key = "laps::token::TokenStream::expect"
    w = World(prog)
    st = w.state()
    st.ghost["TOKEN"] = ("s", "Expected0", fresh_id())

    def judge(E, st, got):
        R = st.ghost["R"][2]
        s, vs = whole(got)
        if s != "expected \0, found \0" or not R or vs != [st.ghost["TOKEN"], R[-1]]:
            w.problem(st, "text", "wrong text", f"reports {text_of(got)!r} when {show(st.ghost['TOKEN'])} is expected "
                      f"and {show(R[-1]) if R else 'nothing'} found")
    E, exits = run(prog, w, key, [w.STREAMREF, st.ghost["TOKEN"]], {}, st,
                   {"laps::span::Span::log_error": complaint(w, judge)})
    report_of(ck, w, E, key, name)


# what each arm of witness/w_token/src/asts.rs expects: its prompt, or the kind it names
ARMS = {"int": "integer", "digit": "digit", "big": "big", "odd": "odd", "plus": ("Op",), "op": "op", "some": "some",
        "zero": ("Small",), "none": ("Small",), "flag": "set", "both": "both", "rec": "rec", "key": "keyword",
        "lead": "leading", "if_": ("If",), "end": ("End",), "text": "text", "any": "anything", "bound": "bound",
        "paren": "paren", "brace": "{a} or {{}}", "fn_": ("Else",), "open": "{", "local_int": "integer", "local_end": ("End",)}


@confirmed
def arm(ck, prog, key):
    """a token that an arm of token_ast! does not accept: the prompt or kind, and the token are named"""
    m = key.rsplit("::", 2)[-2]
    name = f"token_ast arm {m}"
    want = ARMS[m]
    w, st, t, k, sp = c18.setup(prog, c18.KINDTY)

    def judge(E, st, got):
        R = st.ghost["R"][2]
        s, vs = whole(got)
        good = R and vs and vs[-1] in (R[-1], c18.kind_of(prog, R[-1]))
        if isinstance(want, str):
            good = good and s == f"expected {want}, found \0"
        else:
            e = vs[0] if vs else None
            good = good and s == "expected \0, found \0" and isinstance(e, tuple) and e[:2] == ("agg", c18.KINDTY[1]) and \
                prog.adts[e[1]]["variants"][e[2]]["name"] == want[0]
        if not good:
            w.problem(st, "text", "wrong text", f"reports {text_of(got)!r} when {want if isinstance(want, str) else want[0]} "
                      f"is expected and {show(R[-1]) if R else 'nothing'} found")
    E, exits = run(prog, w, key, [w.STREAMREF, ("vref", k)], {}, st,
                   dict(spans.HOOKS, clone=c18.clone, **{"laps::span::Span::log_error": complaint(w, judge)}))
    report_of(ck, w, E, key, name)


class Telling(LexWorld):
    """a derived lexer's diagnostics say what is wrong"""

    def hooks(self):
        return dict(super().hooks(), **{"laps::span::Span::log_error": complaint(self, self.told)})

    def told(self, E, st, got):
        g = st.ghost
        q = g["q"]
        end = isinstance(q, tuple) or bool(g["P"][2]) and g["P"][2][0][1] == lexers.chars.EOF
        tag = self.dfa.tag[q[1] if isinstance(q, tuple) else q] if q is not None else None
        if g.get("parser") and g["parser"][2] == 1:
            want = "invalid " + described(self.lex.variants[tag]) if tag is not None else None
        else:
            want = "unexpected end-of-file" if end else "unrecognized token"
        if want is not None and list(map(ord, want)) != got:
            self.problem(st, "text", "wrong text", f"reports {text_of(got)!r} after {show(g['C'])}, expected {want!r}")


def described(variant):
    """the documentation in one line without its full stop, or the name in words"""
    s = " ".join(d.strip() for d in variant[3:]).strip()
    if not s:
        return words(variant[0])
    s = "".join(c.lower() if c.isascii() else c for c in s)
    return s[:-1] if s.endswith(".") else s


def words(name):
    return "".join(" " * (i > 0) + c.lower() if c.isupper() else c for i, c in enumerate(name))


@confirmed
def lexer(ck, prog, n):
    lex = next(l for l in lexspecs.BASIC if l.name == n)
    w, E, key, exits = lexers.explore(prog, "w_lex", lex, Telling)
    report_of(ck, w, E, key, f"lexer {n}")


def report_of(ck, w, E, key, name):
    from .c01 import report as rep
    rep(ck, w, E, key, name, ("text",))
    ck.count("expectations")


def main():
    ck = Check("C31",
               "what each log operation prints (or its error carries) is the severity, the message and the place, in "
               "that order and complete; rows of an excerpt are the file's lines under their own numbers",
               "Abstract interpretation of every logging operation with and without the logger, for any span, message, "
               "file contents and counts; printed text is a sequence of characters and displayed values, compared "
               "with the wanted sequence as it is printed.")
    for wit, config in (("w_base", "logger"), ("w_nolog", "no logger")):
        try:
            prog = program(wit, ("laps", wit))
        except BuildFailure as e:
            ck.violation(f"does not build [{config}]", "/repo/src/span.rs",
                         "laps does not compile in this configuration: " + first_error(e.text))
            continue
        kinds = [v["name"] for v in prog.adts[texts.FT]["variants"]]
        if config == "logger":
            for m in LOGS:
                for k in kinds if LOGS[m][1] else kinds[-1:]:
                    report(ck, prog, m, k)
            for e in range(3):
                for w in range(3):
                    summary(ck, prog, e, w)
            expect(ck, prog)
            display(ck, prog, "Location")
            display(ck, prog, "Span")
            for k in kinds:
                display(ck, prog, "FileType", k)
        else:
            for m in LOGS:
                carried(ck, prog, m)
    prog = witness(ck, "w_token")
    for key in sorted(prog.bodies) if prog else ():
        if key.startswith(c18.PRE) and key.endswith("::run_parse") and prog.bodies[key].promoted is None:
            arm(ck, prog, key)
    prog = witness(ck, "w_lex")
    for l in lexspecs.BASIC if prog else ():
        lexer(ck, prog, l.name)
    ck.floor("reports", 18)
    ck.floor("expectations", 20)
    ck.floor("summaries", 9)
    ck.floor("displays", 5)
    return ck.finish()
