"""Reference transducers for literals, run along with the code over the same unknown text.

The text under decoding is an unknown string; whatever of it the code looks at becomes known, and
the transducer takes the same characters. It is never told what the code does with them.
"""
from .values import *
from .engine import State, Engine, MODE
from .std import digit_dom, in_dom, pop_side

CH = "char"


class Text:
    """the text being decoded and how far the reference has read it"""

    def __init__(self, prog, step, end, init, extra=None):
        self.prog = prog
        self.step = step            # (E, st, state, c) -> state
        self.end = end              # (E, st, state) -> state
        self.problems = []
        self.init = init
        self.extra = extra or {}

    def problem(self, st, key, msg):
        self.problems.append((key, msg, st.trace_list()))

    def shown(self, st):
        return show(st.ghost["in"]) if "in" in st.ghost else "a text"

    def state(self):
        st = State()
        items = (("seg", CH, fresh_id(), False),)
        self.text = ("seq", "str", items)
        if MODE["exact"]:
            st.ghost["in"] = self.text      # only to show it: it would keep paths apart
        st.ghost["rest"] = ("seq", "str", items)
        st.ghost["spec"] = self.init
        st.ghost["out"] = ("seq", "string", ())
        st.ghost["ended"] = 0
        return st

    def advance(self, E, st, item):
        if item is None:
            if not st.ghost["ended"]:
                st.ghost["spec"] = self.end(E, st, st.ghost["spec"])
                st.ghost["ended"] = 1
        else:
            st.ghost["spec"] = self.step(E, st, st.ghost["spec"], item)
            if st.ghost["spec"][2] == "reject":
                st.ghost["out"] = ("seq", "string", ())

    def item(self, E, st, seq, r, side):
        """the code takes an item from an iterator"""
        if seq[1] != "str":
            return
        rest = st.ghost["rest"][2]
        now = seq[2]
        if r is not None and side == "back":
            return
        if r is None:
            # nothing left: of this text, or of something else
            if any(isseg(x) for x in rest):
                return
            known = rest
            after = ()
        else:
            k = len(rest) - len(now)
            if k < 0 or rest[k:] != now or any(isseg(x) for x in rest[:k]):
                return
            known = rest[:k] + (r[0],)
            after = r[1]
        for x in known:
            self.advance(E, st, x)
        st.ghost["rest"] = ("seq", "str", after)
        if r is None:
            self.advance(E, st, None)

    def settle(self, E, st, done):
        """run the reference on until it is decided whether done(spec)"""
        while not done(st.ghost["spec"]) and not st.ghost["ended"]:
            r = pop_side(E, st, st.ghost["rest"][2], "front")
            if r is None:
                self.advance(E, st, None)
            else:
                self.advance(E, st, r[0])
                st.ghost["rest"] = ("seq", "str", r[1])

    def hooks(self):
        h = {"item": self.item}
        h.update(self.extra)
        return h


def isseg(x):
    return isinstance(x, tuple) and len(x) > 0 and x[0] in ("seg", "rev")


def is_ch(E, st, c, ch):
    return E.decide(st, E.cmp(st, "eq", c, ord(ch)))


def one_of(E, st, c, chars):
    for ch in chars:
        if is_ch(E, st, c, ch):
            return ch
    return None


def digit(E, st, c, radix):
    """the value of a digit, or None"""
    if isinstance(c, int):
        ch = chr(c)
        d = int(ch, 36) if ch.isascii() and ch.isalnum() else 99
        return d if d < radix else None
    if in_dom(E, st, c, digit_dom(radix), 1, lambda: 0) != 1:
        return None
    d = ("t", "digit", (c,), "int:u32")
    E.restrict(st, d, ((0, radix - 1),))
    return d


def S(state, *vals):
    return ("agg", "spec", state, vals)


REJECT = S("reject")
ACCEPT = S("accept")
SIMPLE = {"r": "\r", "n": "\n", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def scalar(E, st, v):
    for lo, hi in CHAR_DOM:
        if E.decide(st, E.cmp(st, "le", lo, v)) and E.decide(st, E.cmp(st, "le", v, hi)):
            return True
    return False


def quoted(quote, many):
    """quoted text with escapes: string (many) or a single character"""
    def emit(st, c):
        st.ghost["out"] = ("seq", "string", st.ghost["out"][2] + (c,))
        return S("body") if many else S("close")

    def step(E, st, s, c):
        n = s[2]
        if n == "reject":
            return s
        if n == "start":
            return S("body") if is_ch(E, st, c, quote) else REJECT
        if n == "body":
            if is_ch(E, st, c, quote):
                return S("end") if many else REJECT
            if one_of(E, st, c, "\n\r\t"):
                return REJECT
            if is_ch(E, st, c, "\\"):
                return S("escape")
            return emit(st, c)
        if n == "close":
            return S("end") if is_ch(E, st, c, quote) else REJECT
        if n == "end":
            return REJECT
        if n == "escape":
            e = one_of(E, st, c, "rnt0\\'\"xu")
            if e is None:
                return REJECT
            if e == "x":
                return S("hex1")
            if e == "u":
                return S("brace")
            return emit(st, ord(SIMPLE[e]))
        if n == "hex1":
            d = digit(E, st, c, 16)
            return REJECT if d is None else S("hex2", d)
        if n == "hex2":
            d = digit(E, st, c, 16)
            return REJECT if d is None else emit(st, lin_add(lin_scale(s[3][0], 16), d))
        if n == "brace":
            return S("digits0") if is_ch(E, st, c, "{") else REJECT
        if n == "digits0":
            d = digit(E, st, c, 16)
            return REJECT if d is None else S("digits", d)
        if n == "digits":
            v = s[3][0]
            if is_ch(E, st, c, "}"):
                return emit(st, v) if scalar(E, st, v) else REJECT
            d = digit(E, st, c, 16)
            if d is None:
                return REJECT
            if not E.decide(st, E.cmp(st, "le", v, 0x10FFFF)):
                return REJECT
            return S("digits", lin_add(lin_scale(v, 16), d))
        raise Undecided("reference state " + n)

    def end(E, st, s):
        return ACCEPT if s[2] == "end" else REJECT
    return step, end, S("start")


def doomed(E, st, s):
    """no continuation is accepted"""
    if s[2] == "reject":
        return True
    if s[2] == "digits":
        return bool(E.decide(st, E.cmp(st, "lt", 0x10FFFF, s[3][0])))
    return False


def integer(signed):
    """an optionally signed integer literal: state (sign, radix); the digits go to ghost 'out'"""
    def take(st, c):
        st.ghost["out"] = ("seq", "string", st.ghost["out"][2] + (c,))

    def step(E, st, s, c):
        n = s[2]
        if n == "reject":
            return s
        if n == "start" and signed:
            sign = one_of(E, st, c, "+-")
            if sign:
                return S("first", ord(sign))
            n, s = "first", S("first", 0)
        elif n == "start":
            n, s = "first", S("first", 0)
        sign = s[3][0]
        if n == "first":
            if digit(E, st, c, 10) is None:
                return REJECT
            take(st, c)
            return S("zero", sign) if is_ch(E, st, c, "0") else S("digits", sign, 10)
        if n == "zero":
            r = one_of(E, st, c, "box")
            if r:
                st.ghost["out"] = ("seq", "string", ())
                return S("prefix", sign, {"b": 2, "o": 8, "x": 16}[r])
            if digit(E, st, c, 10) is None:
                return REJECT
            take(st, c)
            return S("digits", sign, 10)
        if n in ("prefix", "digits"):
            if digit(E, st, c, s[3][1]) is None:
                return REJECT
            take(st, c)
            return S("digits", sign, s[3][1])
        raise Undecided("reference state " + n)

    def end(E, st, s):
        if s[2] == "zero":
            return S("number", s[3][0], 10)
        return S("number", *s[3]) if s[2] == "digits" else REJECT
    return step, end, S("start")
