"""C06: the span of a value runs from its first part to its last part."""
from ..common import Check, program, confirmed, provided
from ..values import *
from ..engine import Engine, State
from ..lexers import witness
from .. import spans, mir
from .c01 import report
from ..grammar import implementor, NONEMPTY, MAYEMPTY, TUPLES

SPANNED, TRYSPAN = "laps::span::Spanned", "laps::span::TrySpan"
SPAN_OF, TRY_OF = SPANNED + "::span", TRYSPAN + "::try_span"
SEQ_LIKE = ("NonEmptySeq", "SepSeq", "NonEmptySepSeq", "OptSepSeq", "NonEmptyOptSepSeq")


class Parts:
    """builds an unknown value of a type and the list of its parts

    ghost V     the parts in order (runs of parts are segments)
    ghost SKIP  the parts that were found to have no span"""

    def __init__(self, prog, imp, optional):
        self.prog = prog
        self.imp = imp
        self.optional = optional        # parameters whose span may be absent
        self.problems = []
        self.nested = 0
        self.levels = 2 if imp["crate"] == "laps" else 1

    def problem(self, st, kind, key, msg):
        self.problems.append((kind, key, msg, st.trace_list()))

    def part(self, t):
        return ("s", mir.ty_str(t), fresh_id())

    def build(self, t, depth=0):
        """alternatives (value, parts) of an unknown value of type t"""
        if t == self.imp["self"] and depth > 0:
            # the value nests in itself: once unknown, and some levels written out
            x = self.part(t)
            out = [(x, (x,))]
            self.nested += 1
            if self.nested <= self.levels:
                out += self.build(t)
            self.nested -= 1
            return out
        if t[0] == "param" or t[0] == "alias":
            x = self.part(t)
            return [(x, (x,))]
        if t[0] in ("int", "bool", "char", "uint"):
            return [(self.part(t), ())]
        if t[0] == "ref":
            return [(("vref", v), ps) for v, ps in self.build(t[1], depth + 1)]
        if t[0] == "tuple":
            return self.product(t[1], lambda fs: ("agg", "tuple", 0, fs), depth)
        if t[0] == "adt":
            n, args = t[1], t[2]
            if n == "alloc::boxed::Box":
                return [(("box", v), ps) for v, ps in self.build(args[0], depth + 1)]
            if n == "alloc::vec::Vec":
                return [self.run_of(args[0], False)]
            if n.endswith("PhantomData"):
                return [(("agg", n, 0, ()), ())]
            if n == spans.SPAN:
                x = self.part(t)
                return [(self.span_of(x), (x,))]
            adt = self.prog.adts.get(n)
            if adt is None or depth > 4:
                raise Undecided("parts of " + mir.ty_str(t))
            if depth > 0 and n.startswith("w_derive") and n != self.imp["self"][1]:
                x = self.part(t)
                return [(x, (x,))]
            sub = self.prog_subst(t)
            out = []
            for i, v in enumerate(adt["variants"]):
                fts = [mir_subst(f[1], sub) for f in v["fields"]]
                short = n.split("::")[-1]
                if short in SEQ_LIKE and n.startswith("laps::ast"):
                    fs, parts = [], ()
                    for ft in fts:
                        if ft[0] == "adt" and ft[1] == "alloc::vec::Vec":
                            v_, ps = self.run_of(ft[2][0], short.startswith("NonEmpty"))
                            fs.append(v_)
                            parts += ps
                        else:
                            fs.append(("agg", "core::marker::PhantomData", 0, ()))
                    out.append((("agg", n, i, tuple(fs)), parts))
                    continue
                if n == "laps::token::Token":
                    fs, parts = [], ()
                    for ft in fts:
                        v_, ps = self.build(ft, depth + 1)[0]
                        fs.append(v_)
                        parts += ps if ft[0] == "adt" and ft[1] == spans.SPAN else ()
                    out.append((("agg", n, i, tuple(fs)), parts))
                    continue
                out += self.product(fts, lambda fs, i=i: ("agg", n, i, fs), depth)
            return out
        raise Undecided("parts of " + mir.ty_str(t))

    def run_of(self, t, nonempty):
        if t[0] not in ("param", "alias"):
            raise Undecided("a list of " + mir.ty_str(t))
        s = ("seg", mir.ty_str(t), fresh_id(), nonempty)
        return ("seq", "vec", (s,)), (s,)

    def product(self, ts, make, depth):
        acc = [((), ())]
        for t in ts:
            acc = [(fs + (v,), ps + qs) for fs, ps in acc for v, qs in self.build(t, depth + 1)]
        return [(make(fs), ps) for fs, ps in acc]

    def prog_subst(self, t):
        gs = [g if isinstance(g, str) else g[0] for g in self.prog.adts[t[1]].get("generics", [])]
        return dict(zip(gs, t[2]))

    # -- spans ------------------------------------------------------------------------------

    def loc(self, end, x):
        fs = []
        for n, t in self.prog.adts[spans.LOC]["variants"][0]["fields"]:
            fs.append(("t", f"{end}.{n}", (x,), "int:u32"))
        return ("agg", spans.LOC, 0, tuple(fs))

    def span_of(self, x):
        fs = []
        for n, t in self.prog.adts[spans.SPAN]["variants"][0]["fields"]:
            if spans.is_loc(t):
                fs.append(self.loc(n, x))
            else:
                fs.append(("t", "shared." + n, (x,), "?"))
        return ("agg", spans.SPAN, 0, tuple(fs))

    def lacks(self, x):
        return x[1] in self.optional

    def known(self, v):
        return isinstance(v, tuple) and v and v[0] in ("s", "seg")

    def on_span(self, E, st, c):
        v = E.deref(st, c.args[0])
        if not self.known(v):
            return NotImplemented
        if self.lacks(v):
            raise Undecided("span of a part that may have none")
        return self.span_of(v)

    def on_try(self, E, st, c):
        v = E.deref(st, c.args[0])
        if not self.known(v):
            return NotImplemented
        if not self.lacks(v):
            return some(self.span_of(v))
        if E.decide(st, ("t", "hasspan", (v,), "bool")):
            return some(self.span_of(v))
        if v not in st.ghost["SKIP"][2]:
            st.ghost["SKIP"] = ("seq", "skip", st.ghost["SKIP"][2] + (v,))
        st.note(f"{c.frame.body.span[0]}:{c.line}: {show(v)} has no span")
        return NONE

    # -- judging ----------------------------------------------------------------------------

    def end(self, E, st, items, side):
        """the first item of `items` that has a span; None: there is none; a Fork settles what is open"""
        skip = st.ghost["SKIP"][2]
        for it in items:
            seg = it[1] if it[0] == "rev" else it
            if seg[0] == "seg":
                if seg in skip or E.truth(st, ("t", "eq", (seg_len(seg), 0), "bool")) == 1:
                    continue
                return ("open", seg)
            if not self.lacks(seg):
                return ("part", seg)
            t = ("t", "hasspan", (seg,), "bool")
            k = E.truth(st, t)
            if k == 1:
                return ("part", seg)
            if k is None:
                return ("ask", seg)
        return ("none",)

    def judge(self, E, s, v, tries):
        if tries:
            if not (v[0] == "agg" and v[1] == OPTION):
                raise Undecided("returns " + show(v))
            got = v[3][0] if v[2] == 1 else None
        else:
            got = v
        V = s.ghost["V"][2]
        for side, items, which in (("start", V, "first"), ("end", tuple(reversed(V)), "last")):
            r = self.end(E, s, items, side)
            tag = f"{side} of the span"
            if r[0] == "none":
                if not tries:
                    raise Undecided("no part has a span")
                if got is not None:
                    self.problem(s, "span", "a span from nowhere", f"returns {show(got)} although no part has a span")
                return
            if got is None:
                if r[0] == "part" or r[0] == "ask" or (r[0] == "open" and (r[1][3] or self.lacks(r[1]))):
                    self.problem(s, "span", "no span although a part has one",
                                 f"returns no span where {show(r[1])} may have one")
                return
            x = self.field(got, side)
            if r[0] != "part":
                self.problem(s, "span", f"{tag} does not look at the {which} part",
                             f"the {side} is {show(x)} although {show(r[1])}, which was not asked, is the {which} part that may have a span")
                continue
            want = self.loc(side, r[1])
            if x != want and not self.equal(E, s, x, want):
                self.problem(s, "span", f"wrong {tag}",
                             f"the {side} of the span is {show(x)}; the {which} part with a span is {show(r[1])} of {show(s.ghost['V'])}")

    def equal(self, E, s, x, want):
        if not (x[0] == "agg" and want[0] == "agg"):
            return False
        return all(a == b or E.truth(s, ("t", "eq", (a, b), "bool")) == 1 for a, b in zip(x[3], want[3]))

    def field(self, sp, name):
        if not (isinstance(sp, tuple) and sp[0] == "agg" and sp[1] == spans.SPAN):
            raise Undecided("returns " + show(sp))
        for f, (n, t) in zip(sp[3], self.prog.adts[spans.SPAN]["variants"][0]["fields"]):
            if n == name:
                return f
        raise Undecided("a span has no " + name)

    def hooks(self):
        return {SPAN_OF: self.on_span, TRY_OF: self.on_try}


def mir_subst(t, sub):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "param":
        return sub.get(t[1], t)
    return tuple(mir_subst(x, sub) for x in t)


@confirmed
def one(ck, prog, imp, tries):
    t = imp["self"]
    key = imp["imap"][TRY_OF if tries else SPAN_OF]
    name = mir.ty_str(t) if len(mir.ty_str(t)) < 40 else f"tuple of {len(t[1])}"
    name += "::try_span" if tries else "::span"
    if imp["crate"] == "w_derive":
        name = "derived " + name.split("<")[0]
    optional = optional_params(imp, tries)
    w0 = Parts(prog, imp, optional)
    blanket = t[0] == "param"
    if blanket:
        w0.optional = ()
    every = []
    E = None
    n = 0
    alts = w0.build(t)
    for v, parts in alts:
        w = Parts(prog, imp, w0.optional)
        st = State()
        st.mem[("g", "self")] = v
        st.ghost["V"] = ("seq", "parts", parts)
        st.ghost["SKIP"] = ("seq", "skip", ())
        E = Engine(prog, w.hooks())
        exits, panics = [], []
        E.start(key, [("mref", ("g", "self"), ())], {}, st)
        E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
        for s, r in exits:
            try:
                w.judge(E, s, r, tries)
            except Undecided as e:
                E.undecided.append((str(e), key))
        for s, m in panics:
            w.problem(s, "span", "panics", f"panics: {m}")
        if not exits and not panics and not E.undecided:
            w.problem(st, "span", "never returns", "no path returns")
        n += len(exits)
        every += w.problems
        ck.engine(E, name)
    w0.problems = every
    ck.count("exits", n)
    report(ck, w0, E, key, name, ("span",))
    ck.count("derived" if imp["crate"] == "w_derive" else "implementations")


def optional_params(imp, tries):
    """labels of the parts that may have no span"""
    if imp["crate"] == "w_derive":
        return tuple("O" + x for x in "ABCDE")
    return tuple(mir.ty_str(a) for a in imp["self"][2] if a[0] == "param") if tries and imp["self"][0] == "adt" else ()


def main():
    ck = Check("C06",
               "at every return, start of the result = start of the first part that has a span and end = end of the last "
               "one; an optional result is absent exactly if every part was found to have none",
               "Abstract interpretation of every Spanned and TrySpan implementation of laps, and of those derived for "
               "declarations of every placement of optional fields, over opaque parts with unknown spans; the expected "
               "parts are taken from the type's declaration.")
    prog = program()
    for tr, tries in ((SPANNED, False), (TRYSPAN, True)):
        for imp in prog.impls_by_trait.get(tr, []):
            if imp["crate"] == "laps":
                one(ck, prog, imp, tries)
    provided(ck, prog, SPANNED, NONEMPTY + TUPLES + ["Token"], implementor)
    provided(ck, prog, TRYSPAN, MAYEMPTY, implementor)
    prog = witness(ck, "w_derive")
    if prog is not None:
        for imp in prog.impls_by_trait.get(SPANNED, []):
            if imp["crate"] == "w_derive" and not mir.ty_str(imp["self"]).startswith("Keep"):
                one(ck, prog, imp, False)
        ck.floor("derived", 60)
    ck.floor("implementations", 20)
    return ck.finish()
