"""C19: token kind conversions and display agree with the declaration."""
from ..common import Check, confirmed, program
from ..values import *
from ..engine import Engine, State
from ..lexers import witness
from .. import fmt, mir

KINDS = "w_token::kinds::"
FROM, TRYFROM, DISPLAY = "core::convert::From", "core::convert::TryFrom", "core::fmt::Display"

# what each variant displays as, from the documentation in witness/w_token/src/kinds.rs
TEXT = {
    "Plain": ["string literal", "integer literal", "end-of-file"],
    "Shapes": ["bare", "h t t p server", "if then else", "lower_case9", "a pair", "a record", "named", "nothing",
               "void", "wrapped. number", "optional"],
    "Docs": ["first line, second line", "empty", "ends with dots..", "indented text", "by attribute",
             "quotes \"and\" `ticks` \\n \\\\ 100%", "straße ÄÖ Übung", "", "between attributes",
             "paragraph one.  paragraph two", "same as above and more"],
    "One": ["the only one"],
    "Discriminants": ["a", "b", "c", "d"],
    "Hidden": ["text", "slice", "byte string"],
    "Braces": ["an {open} brace", "{}", "}{ with a value {v}", "{{doubled}}", "set {0}", "braced record {a}"],
}
# the documentation of `Docs::Period` is a lone period: nothing is left of it


def strip(E, st, v):
    """the value behind any number of references"""
    while isinstance(v, tuple) and v and v[0] in ("vref", "mref"):
        v = E.deref(st, v)
    return v


class Out:
    """a formatter that records what is printed, in order; every piece may fail"""

    def __init__(self, prog):
        self.prog = prog

    def is_fmt(self, E, st, v):
        try:
            return E.deref(st, v) == ("s", "Formatter", 0)
        except Undecided:
            return False

    def put(self, E, st, ps):
        if E.choice(st, "print", 2):
            e = ("s", "fmt::Error", fresh_id())
            st.ghost["failed"] = 1
            return err(e)
        if st.ghost.get("failed"):
            st.ghost["more"] = 1
        st.ghost["OUT"] = ("seq", "out", st.ghost["OUT"][2] + tuple(ps))
        return ok(UNIT)

    def write_fmt(self, E, st, c):
        if not self.is_fmt(E, st, c.args[0]):
            return NotImplemented
        ps = fmt.pieces(c.args[1])
        if ps is None:
            raise Undecided("formatting of " + show(c.args[1]))
        out = []
        for p in ps:
            if p[0] == "lit":
                out.append(("agg", "lit", 0, tuple(map(ord, p[1]))))
            else:
                out.append(self.arg(E, st, p[1], p[2], p[3]))
        return self.put(E, st, out)

    def arg(self, E, st, v, how, opts):
        v = strip(E, st, v)
        if how == "new_display" and not opts and v[0] == "seq" and all(isinstance(x, int) for x in v[2]):
            return ("agg", "lit", 0, v[2])
        return ("agg", "arg " + how + repr(opts), 0, (v,))

    def write_str(self, E, st, c):
        if not self.is_fmt(E, st, c.args[0]):
            return NotImplemented
        v = E.deref(st, c.args[1])
        if v[0] == "seq" and all(isinstance(x, int) for x in v[2]):
            return self.put(E, st, [("agg", "lit", 0, v[2])])
        return self.put(E, st, [("agg", "arg new_display()", 0, (v,))])

    def write_char(self, E, st, c):
        if not self.is_fmt(E, st, c.args[0]):
            return NotImplemented
        v = c.args[1]
        return self.put(E, st, [("agg", "lit", 0, (v,)) if isinstance(v, int) else ("agg", "arg new_display()", 0, (v,))])

    def display(self, E, st, c):
        if not self.is_fmt(E, st, c.args[1]):
            return NotImplemented
        v = strip(E, st, c.args[0])
        t = v[1] if v[0] == "agg" else None
        if t and t.startswith(("w_token::kinds", "w_braces")) and "Num" not in t:
            return NotImplemented
        if v[0] == "seq" and all(isinstance(x, int) for x in v[2]):
            return self.put(E, st, [("agg", "lit", 0, v[2])])
        return self.put(E, st, [("agg", "arg new_display()", 0, (v,))])

    def hooks(self):
        return {"std::fmt::Formatter::write_fmt": self.write_fmt, "std::fmt::Write::write_fmt": self.write_fmt,
                "std::fmt::Formatter::write_str": self.write_str, "std::fmt::Write::write_str": self.write_str,
                "std::fmt::Formatter::pad": self.write_str, "std::fmt::Write::write_char": self.write_char,
                "std::fmt::Formatter::write_char": self.write_char,
                "std::fmt::Display::fmt": self.display}


def text(out):
    """printed pieces as text, with the value shown as a hole"""
    s = ""
    for p in out:
        s += "".join(map(chr, p[3])) if p[1] == "lit" else "\0"
    return s


def printable(s):
    return s.replace("\0", "<value>")


def fails(ck, key, name, problems, E, n):
    ck.engine(E, name)
    sp = E.prog.bodies[key].span
    seen = []
    for k, msg, tr in problems:
        if k not in seen:
            seen.append(k)
            ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name}: {msg}", tr)
    ck.obligation(name, not seen, f"{n} exits, {E.nstates} abstract states")


def explore(prog, key, args, hooks, st=None):
    E = Engine(prog, hooks)
    st = st or State()
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    return E, exits, panics


def impl_for(prog, trait, self_, arg=None):
    for i in prog.impls_by_trait.get(trait, []):
        if i["self"] == self_ and (arg is None or i["args"][1] == arg):
            return i
    return None


@confirmed
def display(ck, prog, enum):
    short = enum.rsplit("::", 1)[-1]
    ty = ("adt", enum, ())
    name = f"{short}: Display"
    imp = impl_for(prog, DISPLAY, ty)
    if imp is None:
        ck.violation(f"{name} is missing", "laps_macros/src/token_kind.rs", f"no Display implementation is generated for {short}")
        return
    key = imp["imap"][DISPLAY + "::fmt"]
    E0 = Engine(prog)
    problems = []
    n = 0
    for i, v in enumerate(prog.adts[enum]["variants"]):
        st = State()
        fs = tuple(E0.fresh(st, t) for _, t in v["fields"])
        st.mem[("g", "f")] = ("s", "Formatter", 0)
        st.ghost["OUT"] = ("seq", "out", ())
        one = is_single(v)
        want = TEXT[short][i] + (" `\0`" if one else "")
        E, exits, panics = explore(prog, key, [("vref", ("agg", enum, i, fs)), ("mref", ("g", "f"), ())], Out(prog).hooks(), st)
        n += len(exits)
        vn = v["name"]
        for s, r in exits:
            out = s.ghost["OUT"][2]
            got = text(out)
            if "failed" in s.ghost:
                if r[2] == 0:
                    problems.append((f"{vn}: failure ignored", f"{vn}: a failure to print is not returned", s.trace_list()))
                if "more" in s.ghost:
                    problems.append((f"{vn}: goes on", f"{vn}: prints on after a failure", s.trace_list()))
                continue
            holes = [p for p in out if p[1] != "lit"]
            if r[2] != 0:
                problems.append((f"{vn}: fails", f"{vn}: fails although everything was printed", s.trace_list()))
            elif got != want:
                problems.append((f"{vn}: prints something else",
                                 f"{vn} prints \"{printable(got)}\" where \"{printable(want)}\" is declared", s.trace_list()))
            elif any(p[1] != "arg new_display()" or p[3][0] != strip(E, s, fs[0]) for p in holes):
                problems.append((f"{vn}: prints another value", f"{vn} prints {show(holes[0])} for the value {show(fs[0])}", s.trace_list()))
        for s, m in panics:
            problems.append((f"{vn}: panics", f"{vn}: panics: {m}", s.trace_list()))
        ck.engine(E, name)
        ck.count("variants")
    fails(ck, key, name, problems, E, n)


def is_single(v):
    return len(v["fields"]) == 1 and v["fields"][0][0] == "0"


@confirmed
def conversions(ck, prog, enum):
    short = enum.rsplit("::", 1)[-1]
    ty = ("adt", enum, ())
    E0 = Engine(prog)
    for i, v in enumerate(prog.adts[enum]["variants"]):
        if not is_single(v):
            continue
        t = v["fields"][0][1]
        vn = v["name"]
        loc = "laps_macros/src/token_kind.rs"
        # into
        imp = impl_for(prog, FROM, ty, t)
        name = f"{short}::{vn}: From<{mir.ty_str(t)}>"
        if imp is None:
            ck.violation(f"{name} is missing", loc, f"{name} is not generated")
        else:
            key = imp["imap"][FROM + "::from"]
            st = State()
            x = E0.fresh(st, t)
            E, exits, panics = explore(prog, key, [x], {}, st)
            bad = [("panics", f"panics: {m}", s.trace_list()) for s, m in panics]
            for s, r in exits:
                if not (r[0] == "agg" and r[1] == enum and r[2] == i and r[3][0] == x):
                    bad.append(("another kind", f"{show(x)} becomes {show(r)}", s.trace_list()))
            fails(ck, key, name, bad, E, len(exits))
            ck.count("conversions")
        # back, by value and by reference
        for ref in (False, True):
            dst = ("ref", t, False) if ref else t
            src = ("ref", ty, False) if ref else ty
            imp = impl_for(prog, TRYFROM, dst, src)
            name = f"{short}::{vn}: TryFrom<{'&' if ref else ''}{short}>"
            if imp is None:
                ck.violation(f"{name} is missing", loc, f"{name} is not generated")
                continue
            key = imp["imap"][TRYFROM + "::try_from"]
            st = State()
            bad = []
            n = 0
            for j, u in enumerate(prog.adts[enum]["variants"]):
                fs = tuple(E0.fresh(st, f[1]) for f in u["fields"])
                k = ("agg", enum, j, fs)
                E, exits, panics = explore(prog, key, [("vref", k) if ref else k], {}, st.copy())
                n += len(exits)
                bad += [(f"{u['name']} panics", f"panics: {m}", s.trace_list()) for s, m in panics]
                for s, r in exits:
                    if i == j:
                        got = r[3][0] if r[2] == 0 else None
                        if got is None or strip(E, s, got) != strip(E, s, fs[0]):
                            bad.append((f"{u['name']} is lost", f"{show(k)} becomes {show(r)}", s.trace_list()))
                    elif r[2] == 0:
                        bad.append((f"{u['name']} is accepted", f"{show(k)} becomes {show(r)}", s.trace_list()))
                ck.engine(E, name)
            fails(ck, key, name, bad, E, n)
            ck.count("conversions")


@confirmed
def words(ck, prog, key):
    """every name of n characters becomes its words in lower case"""
    sp = prog.bodies[key].span
    problems = []
    for n in range(0, 6 if ck.tier == "quick" else 9):
        E = Engine(prog)
        E.fold_after = E.cut_after = E.widen_after = 1 << 30
        cs = tuple(("s", "char", f"char{i}") for i in range(n))
        st = State()
        text = ("seq", "string", cs)
        if prog.bodies[key].locals[1][0] == "ref":
            text = ("vref", ("seq", "str", cs))
        exits, panics = [], []
        E.start(key, [text], {}, st)
        E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
        for s, m in panics:
            problems.append(("panics", f"panics: {m}", s.trace_list()))

        def compare(s, v):
            want = []
            for c in cs:
                upper = E.decide(s, E.cmp(s, "le", 65, c)) and E.decide(s, E.cmp(s, "le", c, 90))
                if upper and want:
                    want.append(32)
                want.append(lin_add(c, 32) if upper else c)
            v = E.deref(s, v)
            if not (v[0] == "seq" and v[2] == tuple(want)):
                problems.append(("another text", f"a name {show(("seq", "str", cs))} becomes {show(v)} instead of {show(("seq", "str", tuple(want)))}", s.trace_list()))
        for s, v in exits:
            E.judge(s, v, compare)
        ck.engine(E, f"names of {n} characters")
        ck.count("name lengths")
    seen = set()
    for k, msg, tr in problems:
        if k not in seen:
            seen.add(k)
            ck.violation(f"words of a name: {k}", f"{sp[0]}:{sp[1]}", msg, tr)
    ck.obligation("words of a name", not problems)


def main():
    ck = Check("C19",
               "From builds the variant with the value, TryFrom gives the value back exactly for that variant (by value and by "
               "reference), Display prints the declared text and the value, piece by piece",
               "Abstract interpretation of the implementations generated by #[token_kind] for enums of every form "
               "(witness/w_token, w_braces), over unknown payloads, against a table of the documented texts.")
    for crate in ("w_token", "w_braces"):
        prog = witness(ck, crate)
        if prog is None:
            continue
        if crate == "w_token":
            macros = program(crate, ("laps", "laps_macros"))
            key = "laps_macros::utils::camel_to_lower"
            if key in macros.bodies and macros.bodies[key].argc == 1:
                words(ck, macros, key)
        for enum in sorted(prog.adts):
            if enum.startswith((KINDS, "w_braces::")) and enum.rsplit("::", 1)[-1] in TEXT:
                display(ck, prog, enum)
                conversions(ck, prog, enum)
    ck.floor("variants", 30)
    ck.floor("conversions", 50)
    return ck.finish()
