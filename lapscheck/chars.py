"""The abstract input stream: what reads, unreads and span queries do.

ghost P     items put back and not yet read again, front first
ghost R     every item read, in order (an item is a character or one end-of-input mark)
ghost at    the item whose span is current, or None at the start
An item x has the location before it (locf x 0) and a span after it.
"""
from .values import *
from .engine import State, Engine, LABEL_TY
from . import spans, stream
from .stream import where, error_discipline, split_suffix, diag

IS = "laps::input::InputStream::"
CH = "Ch"
EOF = "Eof"


def loc_term(prog, x, which):
    """the location `which` of item x as a value"""
    fs = prog.adts[spans.LOC]["variants"][0]["fields"]
    return ("agg", spans.LOC, 0, tuple(("t", "locf", (x, which, n), "int:u32") for n, _ in fs))


_order = {}


def start_field(prog):
    """index of the field that Span::start returns"""
    if id(prog) not in _order:
        fs = prog.adts[spans.SPAN]["variants"][0]["fields"]
        v = ("agg", spans.SPAN, 0, tuple(("agg", spans.LOC, 0, (i, i)) if spans.is_loc(t) else ("s", "Status", "k")
                                         for i, (n, t) in enumerate(fs)))
        got = []
        for m in ("start", "end"):
            E = Engine(prog)
            st = E.start(prog.by_npath("laps::span::Span::" + m)[0], [("vref", v)])
            res = []
            E.run(st, lambda E, s, r: res.append(r), lambda *a: None)
            if len(res) != 1 or res[0][0] != "agg":
                raise Undecided("Span::start/end")
            got.append(res[0][3][0])
        _order[id(prog)] = tuple(got)
    return _order[id(prog)]


def span_value(prog, start, end, status=("s", "Status", "k")):
    si, ei = start_field(prog)
    fs = prog.adts[spans.SPAN]["variants"][0]["fields"]
    return ("agg", spans.SPAN, 0, tuple(start if i == si else end if i == ei else
                                        status + (i,) if False else ("s", "Status", f"k{i}")
                                        for i, _ in enumerate(fs)))


class Chars(stream.World):
    def __init__(self, prog):
        super().__init__(prog)

    def state(self):
        st = State()
        st.mem[stream.SVAL] = ("s", stream.STREAM, fresh_id())
        st.ghost["P"] = ("seq", "stream", ())
        st.ghost["R"] = ("seq", "stream", ())
        st.ghost["at"] = ("s", "Start", "0")
        st.ghost["asked"] = ("seq", "asked", ())
        return st

    def loc_before(self, x):
        return loc_term(self.prog, x, "before")

    def span_at(self, x):
        """span right after reading x (a reader's span is a single location)"""
        l = loc_term(self.prog, x, "start")
        return span_value(self.prog, l, loc_term(self.prog, x, "end"))

    def next_char_loc(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        P, R = st.ghost["P"], st.ghost["R"]
        if P[2]:
            x = P[2][0]
            if x[0] in ("seg", "rev"):
                raise Fork(E.open_seg(st, x, "front"))
        elif "next" not in st.picks:
            E.choice(st, "next", 3)
        self.event(st, "next_char_loc")
        if P[2]:
            st.ghost["P"] = ("seq", "stream", P[2][1:])
            st.note(f"{where(c)}: reads {show(x)} again")
        else:
            w = st.picks["next"]
            if w == 2:
                st.note(f"{where(c)}: read fails")
                return self.fail(st, "next_char_loc")
            x = ("s", CH if w == 0 else EOF, fresh_id())
            st.ghost["R"] = ("seq", "stream", R[2] + (x,))
            st.note(f"{where(c)}: reads {'new character ' if w == 0 else 'end of input '}{show(x)}")
        st.ghost["at"] = x
        st.ghost["reads"] = st.ghost.get("reads", 0) + 1 if isinstance(st.ghost.get("reads", 0), int) and \
            st.ghost.get("reads", 0) < 3 else 3
        o = some(x) if x[1] == CH else NONE
        return ok(("agg", "tuple", 0, (o, self.loc_before(x))))

    def unread(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        t = c.args[1]
        if not (t[0] == "agg" and len(t[3]) == 2 and t[3][0][0] == "agg"):
            raise Undecided(f"unread of {show(t)}")
        o, loc = t[3]
        x = o[3][0] if o[2] == 1 else None
        R, P = st.ghost["R"][2], st.ghost["P"][2]
        C = split_suffix(R, P)
        last = C[-1] if C else None
        if x is None and last is not None and last[1] == EOF:
            x = last
        if x is None or x != last:
            self.problem(st, "order", "unreads something else than what was read last",
                         f"unreads {show(t)} after reading {show(st.ghost['R'])}")
            raise Infeasible()
        if loc != self.loc_before(x):
            self.problem(st, "order", "unreads with a wrong location", f"unreads {show(x)} with location {show(loc)}")
        st.ghost["P"] = ("seq", "stream", (x,) + P)
        st.ghost["at"] = ("t", "before", (x,), "at")
        st.note(f"{where(c)}: unreads {show(x)}")
        return UNIT

    def cur_span(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        return ("vref", self.span_at(st.ghost["at"]))

    def clone(self, E, st, c, v):
        if isinstance(v, tuple) and v and v[0] == "s" and v[1] in (CH, EOF, "Status"):
            return v
        return NotImplemented

    def hooks(self):
        return {IS + "next_char_loc": self.next_char_loc, IS + "unread": self.unread, IS + "span": self.cur_span,
                "clone": self.clone, "call-opaque": self.call_opaque,
                "laps::span::Span::log_raw_fatal_error": diag("log_fatal"),
                "laps::span::Span::log_raw_error": diag("log_error"),
                "laps::span::Span::log_error": diag("log_error"),
                "laps::span::Span::log_fatal_error": diag("log_fatal")}
