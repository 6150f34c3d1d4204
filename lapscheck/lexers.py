"""Derived lexers run over an unknown input next to the reference automaton of their declaration.

ghost q     reference state after the characters consumed for the current token
ghost pq    reference state before the item read last
ghost C     items consumed for the current token (the stream's R is never restarted)
ghost first the first item looked at for the current token
"""
from .chars import *
from . import chars, lexspecs, regexref
from .common import program

DIAG = ("log_error",)


class LexWorld(chars.Chars):
    def __init__(self, prog, lex, dfa):
        super().__init__(prog)
        self.lex, self.dfa = lex, dfa
        self.ty = "int:u8" if lex.byte else "char"
        self.alphabet = regexref.BYTES if lex.byte else regexref.CHARS

    def state(self):
        st = super().state()
        del st.ghost["at"]
        st.ghost["at"] = ("s", "Start", "0")
        self.restart(st)
        return st

    def restart(self, st):
        st.ghost["q"] = self.dfa.init
        st.ghost["pq"] = None
        st.ghost["C"] = ("seq", "string", ())
        st.ghost["first"] = None

    def target(self, E, st, q, x):
        """where the reference goes on x; forks if the facts about x leave it open"""
        cs = self.dfa.classes(q, self.alphabet)
        have = E.dom_of(st, x)
        fit = [(r, t) for r, t in cs if regexref.inter(r, have)] if have is not None else cs
        if len(fit) == 1:
            return fit[0][1]
        raise Fork([[("dom", x, r)] for r, _ in fit])

    def next_char_loc(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        P = st.ghost["P"][2]
        q = st.ghost["q"]
        if q is None or isinstance(q, tuple):
            self.problem(st, "order", "reads on after the token ended",
                         f"reads on although the token {show(st.ghost['C'])} has ended")
            raise Infeasible()
        if not P and "next" not in st.picks:
            cs = self.dfa.classes(q, self.alphabet)
            E.choice(st, "next", 2 + len(cs))
        self.event(st, "next_char_loc")
        if P:
            x = P[0]
            st.note(f"{where(c)}: reads {show(x)} again")
            st.ghost["P"] = ("seq", "stream", P[1:])
        else:
            w = st.picks["next"]
            if w == 1:
                st.note(f"{where(c)}: read fails")
                return self.fail(st, "next_char_loc")
            x = ("s", EOF if w == 0 else self.ty, fresh_id())
            if w > 1:
                r, _ = self.dfa.classes(q, self.alphabet)[w - 2]
                E.restrict(st, x, r)
                # what the characters before it were need not be known any longer
                for y in st.ghost["C"][2][:-1]:
                    st.dom.pop(y, None)
                st.note(f"{where(c)}: reads {show(x)} in {ranges(r)}")
            else:
                st.note(f"{where(c)}: reads end of input")
        st.ghost["last"] = x
        st.ghost["at"] = x
        st.ghost["pq"] = q
        if st.ghost["first"] is None:
            st.ghost["first"] = x
        if x[1] == EOF:
            st.ghost["q"] = ("eof", q)
            if self.skipping(st, q):
                self.restart(st)
        else:
            st.ghost["q"] = self.target(E, st, q, x)
            st.ghost["C"] = ("seq", "string", st.ghost["C"][2] + (x,))
        o = some(x) if x[1] != EOF else NONE
        return ok(("agg", "tuple", 0, (o, self.loc_before(x))))

    def skipping(self, st, q):
        tag = self.dfa.tag[q] if isinstance(q, int) else None
        return tag is not None and self.lex.variants[tag][2][0] == "skip"

    def unread(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        t = c.args[1]
        if not (t[0] == "agg" and len(t[3]) == 2 and t[3][0][0] == "agg"):
            raise Undecided(f"unread of {show(t)}")
        o, loc = t[3]
        last = st.ghost.get("last")
        x = o[3][0] if o[2] == 1 else last
        if x is None or x != last or (o[2] == 0) != (last[1] == EOF):
            self.problem(st, "order", "unreads something else than what was read last", f"unreads {show(t)}, read {show(last)} last")
            raise Infeasible()
        if loc != self.loc_before(x):
            self.problem(st, "order", "unreads with a wrong location", f"unreads {show(x)} with location {show(loc)}")
        st.ghost["P"] = ("seq", "stream", (x,) + st.ghost["P"][2])
        st.ghost["at"] = ("t", "before", (x,), "at")
        st.ghost["last"] = None
        rejected = st.ghost["q"] is None
        if x[1] != EOF:
            st.ghost["C"] = ("seq", "string", st.ghost["C"][2][:-1])
        st.ghost["q"], st.ghost["pq"] = st.ghost["pq"], None
        if rejected and self.skipping(st, st.ghost["q"]):
            self.restart(st)
        st.note(f"{where(c)}: unreads {show(x)}")
        return UNIT

    def parsed(self, name):
        def h(E, st, c):
            v = E.deref(st, c.args[-1])
            items = v[2] if v[0] == "seq" else None
            if items is None:
                raise Undecided("text given to a parser: " + show(v))
            t = ("t", name, (("seq", "string", items),), "w::Val")
            if E.choice(st, "parser", 2) == 0:
                st.ghost["parser"] = ok(t)
                return (some if name != "from_str" else ok)(t)
            st.ghost["parser"] = err(t)
            return NONE if name != "from_str" else err(UNIT)
        return h

    def hooks(self):
        h = super().hooks()
        for n in ("parse_a", "parse_b", "parse_bytes"):
            h[f"{self.crate}::{n}"] = self.parsed(n)
        h[f"{self.crate}::Val::from_str"] = self.parsed("from_str")
        h["std::str::parse"] = self.parsed("from_str")
        h["std::str::FromStr::from_str"] = self.parsed("from_str")
        h["core::str::traits::FromStr::from_str"] = self.parsed("from_str")
        return h

    # -- judging ------------------------------------------------------------------------------

    def judge(self, E, st, v):
        error_discipline(self, st, v)
        if "err" in st.ghost:
            return
        lex, g = self.lex, st.ghost
        C, q = g["C"][2], g["q"]
        if g["first"] is None:
            self.problem(st, "order", "returns before the next token is read", f"returns {show(v)} without having looked at what "
                         "follows the text before it, which is to be skipped")
            return
        eof = isinstance(q, tuple)
        if eof:
            q = q[1]
        if q is None:
            self.problem(st, "order", "rejected character not given back", f"returns after reading {show(g['last'])}, which the "
                         "automaton rejects, without giving it back")
            return
        # why did it stop here?
        P = g["P"][2]
        nxt = P[0] if P else None
        if nxt is not None and nxt[1] == EOF:
            eof = True
        elif not eof:
            if nxt is None and any(t is not None for _, t in self.dfa.classes(q, self.alphabet)) or \
                    nxt is not None and self.target(E, st, q, nxt) is not None:
                self.problem(st, "language", "stops although the automaton accepts more",
                             f"ends the token {show(g['C'])} although {show(nxt) if nxt else 'another character'} continues it")
                return
        tag = self.dfa.tag[q]
        good = v[2] == 0
        if good:
            tok = v[3][0]
            kind, span = self.token_parts(tok)
        if tag is None:
            if eof and not C and lex.eof() is not None:
                if not good:
                    self.problem(st, "language", "no end-of-file token", f"returns {show(v)} at the end of input")
                    return
                self.kind(st, kind, lex.eof(), None, "at the end of input")
                self.span(E, st, span, C)
            elif good:
                self.problem(st, "language", "accepts what no expression matches",
                             f"yields {show(kind)} for the text {show(g['C'])}, which no declared expression matches")
            else:
                self.span(E, st, v[3][0][2][0], C)
            return
        name, form, attr = lex.variants[tag][:3]
        if attr[0] == "skip":
            if C:
                self.problem(st, "order", "returns at a skipped match", f"returns {show(v)} after the skipped text {show(g['C'])}")
            return
        if form != "val":
            if not good:
                self.problem(st, "language", "rejects a match", f"reports an error for {show(g['C'])}, which {name} matches")
                return
            self.kind(st, kind, tag, None, f"for the text {show(g['C'])}")
            self.span(E, st, span, C)
            return
        p = g.get("parser")
        if p is None:
            self.problem(st, "language", "text not converted", f"returns {show(v)} for {show(g['C'])} without converting the text")
            return
        want = ("t", attr[2] or "from_str", (("seq", "string", C),), "w::Val")
        if p[3][0] != want:
            self.problem(st, "order", "converts another text", f"converts {show(p[3][0])} where {show(want)} was consumed")
            return
        if p[2] == 0 and not good:
            self.problem(st, "language", "rejects a match", f"reports an error for {show(g['C'])}, which {name} matches")
        elif p[2] == 1 and good:
            self.problem(st, "order", "accepts a text that cannot be converted", f"yields {show(kind)} although the conversion failed")
        elif good:
            self.kind(st, kind, tag, want, f"for the text {show(g['C'])}")
            self.span(E, st, span, C)
        else:
            self.span(E, st, v[3][0][2][0], C)

    def token_parts(self, tok):
        fs = self.prog.adts["laps::token::Token"]["variants"][0]["fields"]
        si = next(i for i, (n, t) in enumerate(fs) if t[0] == "adt" and t[1] == spans.SPAN)
        return tok[3][1 - si], tok[3][si]

    def kind(self, st, kind, tag, payload, what):
        name, form = self.lex.variants[tag][:2]
        if kind[0] != "agg" or kind[2] != tag:
            got = self.lex.variants[kind[2]][0] if kind[0] == "agg" and isinstance(kind[2], int) else show(kind)
            self.problem(st, "language", "selects another variant", f"yields {got} {what}, the first matching declaration is {name}")
        elif kind[3] != ((payload,) if form == "val" else ()):
            self.problem(st, "order", "wrong value", f"yields {show(kind)} {what}")

    def span(self, E, st, sp, C):
        first = st.ghost["first"]
        if C and C[0] != first:
            raise Undecided(f"first character of {show(st.ghost['C'])}")
        while sp[0] == "t" and sp[1] in ("log_error", "log_fatal"):
            sp = sp[2][0]
        if sp[0] != "agg":
            raise Undecided("span " + show(sp))
        si, ei = start_field(self.prog)
        last = C[-1] if C else first
        if last[0] in ("seg", "rev"):
            raise Undecided("last consumed character not singled out")
        if sp[3][si] != self.span_at(first)[3][si] or sp[3][ei] != self.span_at(last)[3][ei]:
            self.problem(st, "order", "wrong span", f"span {show(sp)} for the text {show(st.ghost['C'])}")


def ranges(r):
    return ",".join(f"{lo:#x}-{hi:#x}" if lo != hi else f"{lo:#x}" for lo, hi in r)


def key_of(st):
    """what keeps loop iterations apart; also forgets what is known about a character that only the
    text read so far still holds"""
    g = st.ghost
    x = g.get("last")
    if x is not None and x in st.dom and not any(standalone(v, x) for v in st.mem.values()):
        del st.dom[x]
        st.pt = {t: b for t, b in st.pt.items() if x not in atoms(t)}
        st.le = frozenset(f for f in st.le if x not in atoms(f))
    return repr(g["q"]), len(g["P"][2]), min(len(g["C"][2]), 2)


def standalone(v, x):
    if v == x:
        return True
    if not isinstance(v, tuple) or not v or v[0] in ("s", "seg", "seq", "rev") or v[0] == "t" and v[1] == "locf":
        return False
    return any(standalone(y, x) for y in v if isinstance(y, tuple))


def explore(prog, crate, lex, world=None):
    dfa = regexref.Dfa(lex.regexes(), lex.byte)
    w = (world or LexWorld)(prog, lex, dfa)
    w.crate = crate
    imps = [i for i in prog.impls_by_trait.get("laps::lexer::Tokenize", []) if i["self"][0] == "adt" and
            i["self"][1] == f"{crate}::{lex.name}"]
    if len(imps) != 1:
        raise Undecided(f"Tokenize for {lex.name}: {len(imps)} implementations")
    key = dict((i[0], i[1]) for i in imps[0]["items"])["next_token"]
    st = w.state()
    E = Engine(prog, w.hooks())
    E.keep_names = (w.ty,)
    E.partition = key_of
    E.max_steps = 4000000
    exits, panics = [], []
    E.start(key, [w.STREAMREF], {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        E.judge(s, v, lambda s, v: w.judge(E, s, v))
    for s, m in panics:
        w.problem(s, "language", "panics", "panics: " + m)
    if not exits and not E.undecided:
        w.problem(st, "order", "never returns", "no path returns")
    return w, E, key, exits


def declared(lex):
    return ", ".join(f"{v[0]}: {v[2][1]}" for v in lex.variants if v[2] and len(v[2]) > 1)


def witness(ck, crate):
    """the analysed witness; one that stops compiling though the library does is a violation"""
    from .common import BuildFailure, program
    try:
        return program(crate, ("laps", crate))
    except BuildFailure as e:
        program()
        lines = [x for x in e.text.splitlines() if x.startswith("error") or "panicked" in x or "-->" in x]
        ck.violation(f"{crate} does not compile", f"witness/{crate}/src/lib.rs",
                     "a well-formed declaration is refused: " + " ".join(lines[:3])[:600], lines[:12])
        return None
