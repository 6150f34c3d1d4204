"""Reference regular expressions: an independent parser and automaton construction.

Supports the syntax the witness lexers use: literals, escapes, classes with ranges and negation,
the dot, groups, alternation, `*`, `+`, `?` and counted repetition, over characters or bytes.
"""

CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BYTES = ((0, 255),)
SPACE = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
         (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
ESC = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "a": 7}


def union(*sets):
    out = []
    for lo, hi in sorted(x for s in sets for x in s):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    return union(tuple((max(l1, l2), min(h1, h2)) for l1, h1 in a for l2, h2 in b if max(l1, l2) <= min(h1, h2)))


def minus(a, b):
    out = list(a)
    for lo, hi in b:
        nxt = []
        for l, h in out:
            if hi < l or lo > h:
                nxt.append((l, h))
                continue
            if l < lo:
                nxt.append((l, lo - 1))
            if h > hi:
                nxt.append((hi + 1, h))
        out = nxt
    return union(tuple(out))


class Parser:
    def __init__(self, text, byte):
        self.s, self.i, self.byte = text, 0, byte
        self.all = BYTES if byte else CHARS

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def take(self):
        c = self.s[self.i]
        self.i += 1
        return c

    def alt(self):
        xs = [self.cat()]
        while self.peek() == "|":
            self.take()
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.peek() not in (None, "|", ")"):
            xs.append(self.rep())
        return ("cat", xs)

    def rep(self):
        a = self.atom()
        while self.peek() in ("*", "+", "?", "{"):
            c = self.take()
            if c == "*":
                a = ("rep", a, 0, None)
            elif c == "+":
                a = ("rep", a, 1, None)
            elif c == "?":
                a = ("rep", a, 0, 1)
            else:
                j = self.s.index("}", self.i)
                b = self.s[self.i:j].split(",")
                self.i = j + 1
                lo = int(b[0])
                a = ("rep", a, lo, lo if len(b) == 1 else int(b[1]) if b[1] else None)
        return a

    def literal(self, c):
        if self.byte and ord(c) > 127:
            return ("cat", [("set", ((b, b),)) for b in c.encode()])
        return ("set", ((ord(c), ord(c)),))

    def atom(self):
        c = self.take()
        if c == "(":
            if self.s.startswith("?:", self.i):
                self.i += 2
            a = self.alt()
            assert self.take() == ")"
            return a
        if c == "[":
            return ("set", self.cls())
        if c == ".":
            return ("set", minus(self.all, ((10, 10),)))
        if c == "\\":
            e = self.escape()
            return e if isinstance(e, tuple) and e[0] == "set" else ("set", ((e, e),))
        return self.literal(c)

    def escape(self):
        c = self.take()
        if c in "xu":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
                return v
            n = 2 if c == "x" else 4
            v = int(self.s[self.i:self.i + n], 16)
            self.i += n
            return v
        if c == "s":
            return ("set", inter(SPACE, self.all) if not self.byte else ((9, 13), (32, 32)))
        if c.isalnum():
            return ESC[c]
        return ord(c)

    def cls(self):
        neg = self.peek() == "^"
        if neg:
            self.take()
        out = ()
        first = True
        while first or self.peek() != "]":
            first = False
            c = self.take()
            lo = self.escape() if c == "\\" else ord(c)
            if isinstance(lo, tuple):
                out = union(out, lo[1])
                continue
            if self.peek() == "-" and self.s[self.i + 1] != "]":
                self.take()
                c = self.take()
                hi = self.escape() if c == "\\" else ord(c)
            else:
                hi = lo
            out = union(out, ((lo, hi),))
        self.take()
        return minus(self.all, out) if neg else inter(out, self.all)


class Nfa:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.edges = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def build(self, t, a):
        """states from a through t; returns the end"""
        k = t[0]
        if k == "set":
            b = self.new()
            self.edges.setdefault(a, []).append((t[1], b))
            return b
        if k == "cat":
            for x in t[1]:
                a = self.build(x, a)
            return a
        if k == "alt":
            b = self.new()
            for x in t[1]:
                s = self.new()
                self.e(a, s)
                self.e(self.build(x, s), b)
            return b
        _, x, lo, hi = t
        for _ in range(lo):
            a = self.build(x, a)
        if hi is None:
            s = self.new()
            self.e(a, s)
            self.e(self.build(x, s), s)
            return s
        b = self.new()
        self.e(a, b)
        for _ in range(hi - lo):
            a = self.build(x, a)
            self.e(a, b)
        return b

    def close(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for b in self.eps.get(work.pop(), ()):
                if b not in out:
                    out.add(b)
                    work.append(b)
        return frozenset(out)


class Dfa:
    """states are numbers, 0 is initial; tag[q] is the first matching expression or None;
    trans[q] is a tuple of (ranges, target) over live targets"""

    def __init__(self, regexes, byte=False):
        n = Nfa()
        start = n.new()
        finals = {}
        for tag, re in regexes:
            p = Parser(re, byte)
            t = p.alt()
            assert p.i == len(re), re
            s = n.new()
            n.e(start, s)
            finals[n.build(t, s)] = tag
        order = {tag: i for i, (tag, _) in enumerate(regexes)}
        ids, work = {}, []

        def num(ss):
            if ss not in ids:
                ids[ss] = len(ids)
                work.append(ss)
            return ids[ss]
        num(n.close({start}))
        trans, tag = {}, {}
        while work:
            ss = work.pop()
            q = ids[ss]
            ts = sorted((finals[s] for s in ss if s in finals), key=lambda t: order[t])
            tag[q] = ts[0] if ts else None
            cuts = {}
            parts = [(r, b) for s in ss for r, b in n.edges.get(s, ())]
            points = sorted({x for r, _ in parts for lo, hi in r for x in (lo, hi + 1)})
            for lo, nx in zip(points, points[1:]):
                to = {b for r, b in parts if any(l <= lo <= h for l, h in r)}
                if to:
                    q2 = num(n.close(to))
                    cuts.setdefault(q2, []).append((lo, nx - 1))
            trans[q] = {q2: union(tuple(r)) for q2, r in cuts.items()}
        live = {q for q in tag if tag[q] is not None}
        while True:
            more = {q for q in trans if q not in live and any(t in live for t in trans[q])}
            if not more:
                break
            live |= more
        # merge equivalent states
        block = {q: (tag[q],) for q in live}
        while True:
            sig = {}
            for q in live:
                m = {}
                for t, r in trans[q].items():
                    if t in live:
                        m[block[t]] = union(m.get(block[t], ()), r)
                sig[q] = (block[q], tuple(sorted(m.items(), key=repr)))
            names = {}
            for q in sorted(live):
                names.setdefault(sig[q], len(names))
            new = {q: names[sig[q]] for q in live}
            if len(set(new.values())) == len(set(block.values())):
                block = new
                break
            block = new
        self.size = len(set(block.values()))
        self.init = block.get(0)
        self.tag, self.trans = {}, {}
        for q in live:
            self.tag[block[q]] = tag[q]
            m = {}
            for t, r in trans[q].items():
                if t in live:
                    m[block[t]] = union(m.get(block[t], ()), r)
            self.trans[block[q]] = tuple((r, t) for t, r in sorted(m.items()))

    def classes(self, q, alphabet):
        """[(ranges, target or None)] covering the alphabet"""
        out = list(self.trans[q])
        rest = minus(alphabet, union(*[r for r, _ in out])) if out else alphabet
        if rest:
            out.append((rest, None))
        return out


def match(dfa, text):
    q = dfa.init
    for c in text:
        q = next((t for r, t in dfa.trans[q] if any(l <= c <= h for l, h in r)), None)
        if q is None:
            return None
    return dfa.tag[q]
