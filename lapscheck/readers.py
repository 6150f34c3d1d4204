"""Readers over an unknown byte source: every split of the source into reads, every failure.

State of a reader: characters buffered (last first), bytes read but not decoded yet, position.
ghost D    bytes the source has delivered during the call
ghost ENC  facts about decoding: a run of bytes and the characters it encodes
ghost rest what follows the longest valid prefix last found ("none", "incomplete", "invalid")
"""
from .values import *
from .engine import State, Engine
from . import spans, stream, mir
from .chars import start_field, span_value
from .stream import where, diag, is_diag
from .std import rev_items, sub_seq, slice_range, builtin

UTF8ERR = "core::str::error::Utf8Error"
CELL = ("g", "reader")
READERS = {"laps::reader::Reader": "char", "laps::reader::ByteReader": "int:u8"}


class Layout:
    """which field of a reader plays which part"""

    def __init__(self, prog, name):
        self.name = name
        self.fields = prog.adts[name]["variants"][0]["fields"]
        self.role = []
        for n, t in self.fields:
            if t[0] == "param":
                r = "source"
            elif t[0] == "adt" and t[1] == spans.SPAN:
                r = "span"
            elif t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
                r = "chars"
            elif t[0] == "adt" and t[1] == "alloc::boxed::Box" and t[2][0][0] == "array" or t[0] == "array":
                r = "bytes"
            elif t == ("int", "usize"):
                r = "offset"
            else:
                raise Undecided(f"field {n} of {name}")
            self.role.append(r)
        if sorted(self.role) not in (["chars", "source", "span"], ["bytes", "chars", "offset", "source", "span"]):
            raise Undecided(f"unexpected fields in {name}")

    def get(self, v, role):
        return v[3][self.role.index(role)] if role in self.role else None


class Source:
    """hooks for one reader type"""

    def __init__(self, prog, name, empty=False):
        self.prog = prog
        self.lay = Layout(prog, name)
        self.ch = READERS[name]
        self.problems = []
        self.empty = empty

    def problem(self, st, kind, key, msg):
        self.problems.append((kind, key, msg, st.trace_list()))

    def state(self):
        st = State()
        loc = ("agg", spans.LOC, 0, tuple(("s", "int:u32", fresh_id())
                                          for _ in self.prog.adts[spans.LOC]["variants"][0]["fields"]))
        CB = ("seg", self.ch, fresh_id(), False)
        A = ("seg", "int:u8", fresh_id(), False)
        J = ("seg", "int:u8", fresh_id(), False)
        self.vec = "vec"
        vals = {"source": ("s", "@source", fresh_id()), "span": span_value(self.prog, loc, loc),
                "chars": ("seq", "vec", (CB,)), "bytes": ("box", ("seq", "array", (A, J))), "offset": seg_len(A)}
        out = []
        for r, (n, t) in zip(self.lay.role, self.lay.fields):
            v = vals[r]
            if r == "bytes" and t[0] == "array":
                v = v[1]
            if r == "chars" and t[1].endswith("VecDeque"):
                v = ("seq", "deque", v[2])
            out.append(v)
        st.mem[CELL] = ("agg", self.lay.name, 0, tuple(out))
        st.ghost["old"] = st.mem[CELL]
        st.ghost["D"] = ("seq", "stream", ())
        st.ghost["A"] = ("seq", "stream", (A,) if "bytes" in self.lay.role else ())
        st.ghost["ENC"] = ("seq", "enc", ())
        st.ghost["rest"] = 0
        st.ghost["eof"] = 0
        return st

    REF = ("mref", CELL, ())

    # -- what the source does ---------------------------------------------------------------

    def read(self, E, st, c):
        src = E.deref(st, c.args[0])
        if not (isinstance(src, tuple) and src[0] == "s" and src[1] == "@source"):
            return NotImplemented
        if "err" in st.ghost:
            self.problem(st, "error", "continues after an error", "reads again after a read failed")
        w = E.choice(st, "read", 3)
        if w == 0:
            e = ("s", "IoError", fresh_id())
            st.ghost["err"] = e
            st.note(f"{where(c)}: read fails")
            return err(e)
        if w == 1:
            st.ghost["eof"] = 1
            st.note(f"{where(c)}: read reports end of input")
            return ok(0)
        st.ghost["eof"] = 0
        b = c.args[1]
        D = ("seg", "int:u8", fresh_id(), True)
        J = ("seg", "int:u8", fresh_id(), False)
        if b[0] == "msl":
            loc = ("place", b[1], b[2])
            v = E.rd(st, loc)
            head = sub_seq(E, st, v, 0, b[3], c)
            tail = sub_seq(E, st, v, b[4], items_len(v[2]), c) if b[4] != items_len(v[2]) else ()
        elif b[0] == "mref":
            loc = ("place", b[1], b[2])
            v = E.rd(st, loc)
            head = tail = ()
        else:
            raise Undecided("read into " + show(b))
        if tail:
            raise Undecided("read into the middle of a buffer")
        E.wr(st, loc, ("seq", v[1], head + (D, J)))
        st.ghost["D"] = ("seq", "stream", st.ghost["D"][2] + (D,))
        st.note(f"{where(c)}: read delivers bytes {show(D)}")
        return ok(seg_len(D))

    def index_mut(self, E, st, c):
        src, i = c.args
        if src[0] != "mref" or isinstance(i, int) or i[0] != "agg":
            return NotImplemented
        v = E.rd(st, ("place", src[1], src[2]))
        if v[0] == "box":
            src = ("mref", src[1], src[2] + ("box",))
            v = v[1]
        if v[0] != "seq" or v[1] not in ("array", "slice", "vec"):
            return NotImplemented
        lo, hi = slice_range(E, i, v)
        return ("msl", src[1], src[2], lo, hi)

    def from_utf8(self, E, st, c):
        v = E.deref(st, c.args[0])
        if v[0] != "seq":
            return NotImplemented
        X = v[2]
        if not X:
            return ok(("vref", ("seq", "str", ())))
        known = st.ghost.get("known")
        if known is not None and known[3][0][2] == X:
            w = known[2]
            if w > 10:
                st.ghost["rest"] = w - 12
                return err(("agg", UTF8ERR, 0, (items_len(X[:-1]), w - 13)))
        else:
            w = E.choice(st, "utf8", 5, ["the bytes read are valid", "the first character is incomplete",
                                         "the bytes start with an invalid character",
                                         "valid characters, then an incomplete one",
                                         "valid characters, then an invalid one"])
            if w == 1 and sum(1 for x in X if x[0] != "seg" or x[3]) > 3:
                raise Infeasible()      # four bytes are never an incomplete character
            st.ghost["known"] = ("agg", "known", w, (("seq", "s", X),))
        st.ghost["rest"] = {0: 0, 1: 1, 2: 2, 3: 1, 4: 2}[w]
        if w == 0:
            C = self.decoded(E, st, X)
            return ok(("vref", ("seq", "str", C)))
        if w in (1, 2):
            return err(("agg", UTF8ERR, 0, (0, w - 1)))
        # the undecoded bytes kept from earlier have no valid prefix
        last = X[-1]
        if last[0] != "seg":
            raise Undecided("bytes are taken apart before decoding")
        V = st.ghost.get("split")
        D1 = ("seg", "int:u8", fresh_id(), True)
        D2 = ("seg", "int:u8", fresh_id(), True)
        E.apply_subst(st, {last: ("splice", (D1, D2))})
        st.ghost["known"] = ("agg", "known", 10 + w, (("seq", "s", X[:-1] + (D1, D2)),))
        self.decoded(E, st, X[:-1] + (D1,))
        return err(("agg", UTF8ERR, 0, (items_len(X[:-1] + (D1,)), w - 3)))

    def decoded(self, E, st, X):
        for p in st.ghost["ENC"][2]:
            if p[3][0][2] == X:
                return p[3][1][2]
        C = (("seg", "char", fresh_id(), True),)
        st.ghost["ENC"] = ("seq", "enc", st.ghost["ENC"][2] + (("agg", "enc", 0, (("seq", "s", X), ("seq", "s", C))),))
        return C

    def valid_up_to(self, E, st, c):
        v = E.deref(st, c.args[0])
        return v[3][0] if v[0] == "agg" and v[1] == UTF8ERR else NotImplemented

    def error_len(self, E, st, c):
        v = E.deref(st, c.args[0])
        if v[0] != "agg" or v[1] != UTF8ERR:
            return NotImplemented
        if v[3][1] == 0:
            return NONE
        # the invalid bytes get a name of their own; what follows them is not known to be valid
        kn = st.ghost["known"]
        X, at = kn[3][0][2], v[3][0]
        bad = st.ghost.get("bad")
        if bad is not None and bad[3][0] == at:
            return some(bad[3][1])
        n = ("s", "int:usize", fresh_id())
        E.restrict(st, n, ((1, 3),))
        if X and items_len(X[:-1]) == at and X[-1][0] == "seg":
            D1 = ("seg", "int:u8", fresh_id(), True)
            D2 = ("seg", "int:u8", fresh_id(), False)
            E.apply_subst(st, {X[-1]: ("splice", (D1, D2))})
            kn = st.ghost["known"]
            st.ghost["known"] = ("agg", "known", kn[2], (("seq", "s", X[:-1] + (D1, D2)),))
            E.assume(st, E.cmp(st, "le", seg_len(D1), 3), 1)
            n = seg_len(D1)
            at = items_len(X[:-1])
            st.ghost["bad"] = ("agg", "bad", 0, (at, n))
        return some(n)

    def unchecked(self, E, st, c):
        v = E.deref(st, c.args[0])
        if v[0] != "seq":
            return NotImplemented
        if not v[2]:
            return ("vref", ("seq", "str", ()))
        for p in st.ghost["ENC"][2]:
            if p[3][0][2] == v[2]:
                return ("vref", ("seq", "str", p[3][1][2]))
        self.problem(st, "bytes", "unchecked conversion of unvalidated bytes",
                     f"{show(v)} is taken for UTF-8 without having been found valid")
        E.misused(st, c, f"{show(v)} is taken for UTF-8 without having been found valid")
        raise Infeasible()

    def copy_within(self, E, st, c):
        dst, rng, to = c.args
        if dst[0] != "mref":
            return NotImplemented
        loc = ("place", dst[1], dst[2])
        v = E.rd(st, loc)
        if v[0] == "box":
            loc = ("place", dst[1], dst[2] + ("box",))
            v = v[1]
        if v[0] != "seq":
            raise Undecided("copy_within")
        lo, hi = slice_range(E, rng, v)
        moved = sub_seq(E, st, v, lo, hi, c)
        head = sub_seq(E, st, v, 0, to, c)
        E.wr(st, loc, ("seq", v[1], head + moved + (("seg", "int:u8", fresh_id(), False),)))
        return UNIT

    def clone(self, E, st, c, v):
        if isinstance(v, tuple) and v and v[0] == "s" and v[1] == "Status":
            return v
        return NotImplemented

    def hooks(self):
        h = {"std::io::Read::read": self.read, "std::ops::IndexMut::index_mut": self.index_mut,
             "std::str::from_utf8": self.from_utf8, "std::str::from_utf8_unchecked": self.unchecked,
             "std::slice::copy_within": self.copy_within, "clone": self.clone,
             "std::str::Utf8Error::valid_up_to": self.valid_up_to, "std::str::Utf8Error::error_len": self.error_len}
        for k, d in (("log_error", "log_error"), ("log_raw_error", "log_error"), ("log_fatal_error", "log_fatal"),
                     ("log_raw_fatal_error", "log_fatal")):
            h["laps::span::Span::" + k] = self.diag(d)
        return h

    def diag(self, kind):
        def f(E, st, c):
            st.note(f"{where(c)}: {kind}")
            e = st.ghost.get("err", 0)
            return ("t", kind, (E.deref(st, c.args[0]), e), "laps::span::Error")
        return f

    # -- what is left -------------------------------------------------------------------------

    def upcoming(self, st, v=None):
        """buffered characters, next first"""
        v = v or st.mem[CELL]
        b = self.lay.get(v, "chars")
        return rev_items(b[2]) if b[1] == "vec" else b[2]

    def pending(self, E, st, v=None):
        v = v or st.mem[CELL]
        b = self.lay.get(v, "bytes")
        if b is None:
            return ()
        if b[0] == "box":
            b = b[1]
        return sub_seq(E, st, b, 0, self.lay.get(v, "offset"))

    def span(self, st):
        return self.lay.get(st.mem[CELL], "span")


def run(src, key, args, st, E=None):
    E = E or Engine(src.prog, src.hooks())
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    E.panics = panics
    return E, exits
