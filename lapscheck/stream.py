"""The abstract token stream and its parsers: what the analysed code draws,
puts back, parses and asks, and what comes back.

ghost P       tokens put back and not yet read again, front first
ghost R       every token drawn since the last sub-parse, in order
ghost Q       answers of predictions since the last sub-parse
ghost err     the error that was reported to the code under analysis
ghost L:<T>   values parsed for T, in order
aux           state of the grammar being followed

A read takes from P first; an empty P draws a fresh token or fails.
"""
from .values import *
from .engine import CALL, ty_label, LABEL_TY, State, Engine
from . import mir, std

TOK = "Tok"
NEXT = "laps::token::Tokenizer::next_token"
UNREAD = "laps::token::TokenStream::unread"
PARSE = "laps::parse::Parse::parse"
MAYBE = "laps::parse::Parse::maybe"
STREAM = "@stream"
SVAL = ("g", "stream")


class World:
    """hooks plus the obligations that are checked on every path"""

    def __init__(self, prog, is_event=None, spec=None):
        self.prog = prog
        self.is_event = is_event or (lambda t: t[0] in ("param", "alias"))
        self.spec = spec
        self.problems = []      # (kind, key, message, trace)
        self.reads = 0

    def problem(self, st, kind, key, msg):
        self.problems.append((kind, key, msg, st.trace_list()))

    # -- initial state --------------------------------------------------------------------

    def state(self):
        st = State()
        st.mem[SVAL] = ("s", STREAM, fresh_id())
        st.ghost["P"] = ("seq", "stream", ())
        st.ghost["R"] = ("seq", "stream", ())
        st.ghost["Q"] = ("agg", "Q", 0, ())
        if self.spec:
            st.aux = self.spec["start"]
        return st

    STREAMREF = ("mref", SVAL, ())

    def opaque(self, E, st, v):
        try:
            v = E.deref(st, v)
        except Undecided:
            return False
        return isinstance(v, tuple) and v[0] == "s" and v[1] == STREAM

    # -- events ---------------------------------------------------------------------------

    def event(self, st, what):
        if "err" in st.ghost:
            self.problem(st, "error", "continues after an error",
                         f"{what} after {show(st.ghost['err'])} was reported")

    def fail(self, st, label):
        e = ("s", "Error@" + label, fresh_id())
        st.ghost.setdefault("err", e)
        return err(e)

    def consumed(self, st):
        """tokens taken from the stream and not put back: R = C ++ P"""
        return split_suffix(st.ghost["R"][2], st.ghost["P"][2])

    def next_token(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        P, R = st.ghost["P"], st.ghost["R"]
        if P[2]:
            it = P[2][0]
            if isinstance(it, tuple) and it[0] in ("seg", "rev"):
                raise Fork(E.open_seg(st, it, "front"))
        elif "next" not in st.picks:
            E.choice(st, "next", 2)
        self.event(st, "next_token")
        if P[2]:
            st.ghost["P"] = ("seq", "stream", P[2][1:])
            st.note(f"{where(c)}: next_token delivers {show(it)} again")
            return ok(it)
        if st.picks["next"] == 0:
            t = ("s", TOK, fresh_id())
            st.ghost["R"] = ("seq", "stream", R[2] + (t,))
            st.note(f"{where(c)}: next_token delivers new token {show(t)}")
            return ok(t)
        st.note(f"{where(c)}: next_token fails")
        self.read_failure(E, st)
        return self.fail(st, "next_token")

    def read_failure(self, E, st):
        if self.spec is None:
            return
        s, asked, stuck = self.follow(st)
        if stuck is None or stuck[0] != "read":
            self.problem(st, "grammar", "read the grammar does not need",
                         "reads a token (and can fail) where the documented grammar reads none")

    def unread(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        P = st.ghost["P"]
        st.ghost["P"] = ("seq", "stream", (c.args[1],) + P[2])
        st.note(f"{where(c)}: unread {show(c.args[1])}")
        return UNIT

    def label(self, t):
        if t[0] == "adt" and t[1] in ("alloc::boxed::Box",):
            return "Box<" + self.label(t[2][0]) + ">"
        return mir.ty_str(t)

    def parse(self, E, st, c):
        t = c.targs[0]
        if not self.is_event(t) or not self.opaque(E, st, c.args[0]):
            return NotImplemented
        w = E.choice(st, "parse", 2)
        self.event(st, f"{self.label(t)}::parse")
        C = self.consumed(st)
        lab = self.label(t)
        if C is None:
            self.problem(st, "consume", "stream out of order",
                         f"{lab}::parse runs on a stream whose tokens are {show(st.ghost['P'])} "
                         f"after {show(st.ghost['R'])} were read")
        elif C:
            self.problem(st, "grammar", "token dropped before a sub-parse",
                         f"{lab}::parse runs after {show(('seq', 's', C))} was read and not put back")
        st.note(f"{where(c)}: {lab}::parse " + ("succeeds" if w == 0 else "fails"))
        if self.spec is not None:
            self.advance_parse(E, st, lab)
        if w == 1:
            return self.fail(st, lab + "::parse")
        x = E.fresh(st, t) if t[0] == "param" else ("s", ty_label(t), fresh_id())
        st.ghost["P"] = ("seq", "stream", ())
        st.ghost["R"] = ("seq", "stream", ())
        st.ghost["Q"] = ("agg", "Q", 0, ())
        k = "L:" + lab
        old = st.ghost.get(k, ("seq", "log", ()))
        st.ghost[k] = ("seq", "log", old[2] + (x,))
        return ok(x)

    def maybe(self, E, st, c):
        t = c.targs[0]
        if not self.is_event(t) or not self.opaque(E, st, c.args[0]):
            return NotImplemented
        lab = self.label(t)
        C = self.consumed(st)
        if C is None:
            w = E.choice(st, "maybe", 3)
            self.problem(st, "consume", "stream out of order",
                         f"{lab}::maybe runs on a stream whose tokens are {show(st.ghost['P'])} "
                         f"after {show(st.ghost['R'])} were read")
            return ok(1)
        known = self.answer(st, lab, C)
        if known is None:
            w = E.choice(st, "maybe", 3)
        self.event(st, f"{lab}::maybe")
        if known is not None:
            return ok(known)
        at = f" after {len(C)} token(s)" if C else ""
        st.note(f"{where(c)}: {lab}::maybe{at} " + ("answers true", "answers false", "fails")[w])
        if w == 2:
            if self.spec is not None:
                s, asked, stuck = self.follow(st)
                if stuck != ("ask", lab, len(C)):
                    self.problem(st, "grammar", f"asks {lab}::maybe",
                                 f"asks {lab}::maybe{at}, whose failure surfaces, where the documented "
                                 f"grammar does not")
            return self.fail(st, lab + "::maybe")
        self.learn(st, lab, C, 1 - w)
        return ok(1 - w)

    def answer(self, st, lab, C):
        for q in st.ghost["Q"][3]:
            if q[1] == lab and q[3][0][2] == tuple(C):
                return q[2]
        return None

    def learn(self, st, lab, C, b):
        Q = st.ghost["Q"]
        st.ghost["Q"] = ("agg", "Q", 0, Q[3] + (("agg", lab, b, (("seq", "pos", tuple(C)),)),))

    # -- grammar --------------------------------------------------------------------------

    def follow(self, st, state=None):
        """advance the specification through answered questions"""
        s = state or st.aux
        asked = []
        R = st.ghost["R"][2]
        pos = 0
        while True:
            n = self.spec[s]
            if n[0] == "ask":
                a = self.answer(st, n[1], R[:pos])
                if a is None:
                    return s, asked, ("ask", n[1], pos)
                asked.append((n[1], pos))
                s = n[2] if a else n[3]
            elif n[0] == "read":
                if len(R) <= pos:
                    return s, asked, ("read",)
                pos += 1
                s = n[1]
            else:
                return s, asked, None

    def extra(self, st, asked):
        return [q[1] for q in st.ghost["Q"][3] if (q[1], len(q[3][0][2])) not in asked]

    def advance_parse(self, E, st, lab):
        s, asked, stuck = self.follow(st)
        if stuck is not None:
            n = stuck[1] + "::maybe" if stuck[0] == "ask" else "the next token"
            self.problem(st, "grammar", f"parses {lab} without asking {n}",
                         f"parses {lab} although the grammar decides here by {n}, which was not consulted")
            raise Infeasible()
        n = self.spec[s]
        nxt = n[1].get(lab) if n[0] == "parse" else None
        if nxt is None:
            want = "/".join(n[1]) if n[0] == "parse" else "the end"
            self.problem(st, "grammar", f"parses {lab} instead of {want}",
                         f"parses {lab} where the grammar continues with {want}")
            raise Infeasible()
        for q in self.extra(st, asked):
            self.problem(st, "grammar", f"asks {q}::maybe",
                         f"asks {q}::maybe where the documented grammar does not")
        st.aux = nxt

    # -- user code the library calls ---------------------------------------------------------

    def span(self, E, st, c):
        """Spanned::span of a value of unknown type"""
        t = c.targs[0]
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[0] in ("s", "seg") and self.unknown_type(v):
            return ("t", "spanof", (v,), "laps::span::Span")
        return NotImplemented

    def try_span(self, E, st, c):
        v = E.deref(st, c.args[0])
        if isinstance(v, tuple) and v[0] in ("s", "seg") and self.unknown_type(v):
            t = ("t", "hasspan", (v,), "bool")
            if E.decide(st, t):
                return some(("t", "spanof", (v,), "laps::span::Span"))
            return NONE
        return NotImplemented

    def unknown_type(self, v):
        t = LABEL_TY.get(v[1])
        return t is None or self.is_event(t)

    def call_opaque(self, E, st, fv, args):
        """a caller-supplied predicate"""
        if not (isinstance(fv, tuple) and fv[0] == "s"):
            return NotImplemented
        xs = tuple(E.deref(st, a) for a in args)
        self.event(st, "the caller's function runs")
        old = st.ghost.get("asked", ("seq", "asked", ()))
        st.ghost["asked"] = ("seq", "asked", old[2] + (xs[0],))
        return ("t", "pred", xs, "bool")

    def hooks(self):
        return {NEXT: self.next_token, UNREAD: self.unread, PARSE: self.parse, MAYBE: self.maybe,
                "clone": clone_tok, "laps::span::Spanned::span": self.span,
                "laps::span::TrySpan::try_span": self.try_span, "call-opaque": self.call_opaque,
                "laps::span::Span::log_error": diag("log_error"),
                "laps::span::Span::log_raw_error": diag("log_error"),
                "laps::span::Span::log_fatal_error": diag("log_fatal"),
                "laps::span::Span::log_raw_fatal_error": diag("log_fatal")}


def diag(kind):
    def h(E, st, c):
        st.note(f"{where(c)}: {kind}")
        return ("t", kind, (E.deref(st, c.args[0]),), "laps::span::Error")
    return h


def clone_tok(E, st, c, v):
    if isinstance(v, tuple) and v and v[0] == "s" and v[1] == TOK:
        return v
    return NotImplemented


def where(c):
    f = c.frame.body.span[0]
    return f"{f}:{c.line}"


def split_suffix(R, P):
    """C with R == C ++ P, or None"""
    if len(P) == 0:
        return R
    if len(P) <= len(R) and R[len(R) - len(P):] == P:
        return R[:len(R) - len(P)]
    return None


def run(prog, world, key, args, substs=None, st=None, extra_hooks=None, exact=None, **kw):
    """explore one function; returns (engine, exits)"""
    hooks = world.hooks()
    hooks.update(extra_hooks or {})
    E = Engine(prog, hooks, **kw)
    if exact is not None:
        E.fold_after = exact
    st = st or world.state()
    exits = []
    panics = []
    E.start(key, args, substs or {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    E.panics = panics
    return E, exits


def error_discipline(world, st, v):
    """C05 at an exit: the reported error, and only that, is returned"""
    e = st.ghost.get("err")
    is_err = isinstance(v, tuple) and v[0] == "agg" and v[1] == RESULT and v[2] == 1
    if e is not None:
        if not is_err:
            world.problem(st, "error", "error swallowed", f"returns {show(v)} although {show(e)} was reported")
        elif v[3][0] != e:
            world.problem(st, "error", "error replaced", f"returns {show(v)} although {show(e)} was reported")
    elif is_err:
        x = v[3][0]
        if not is_diag(x):
            world.problem(st, "error", "error invented", f"returns {show(v)} although nothing failed")


def is_diag(x):
    return isinstance(x, tuple) and x and x[0] == "t" and x[1] in ("log_error", "log_fatal")
