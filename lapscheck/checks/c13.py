"""C13: integer literal decoding accepts exactly the documented forms with the right value."""
from ..common import Check, program, confirmed, provided
from ..lits import *
from ..std import wrap

FNS = {"laps::lexer::int_literal": False, "laps::lexer::signed_int_literal": True}
NUM = "number"


def digits_of(E, st, v):
    v = E.deref(st, v)
    if v[0] != "seq":
        raise Undecided("text to convert: " + show(v))
    return v[2]


def from_str_radix(E, st, c):
    """the standard conversion, opaque in its result but not in what it is applied to"""
    items, radix = digits_of(E, st, c.args[0]), c.args[1]
    if items and not isseg(items[0]) and is_ch(E, st, items[0], "+"):
        items = items[1:]
    if not items or items == (ord("-"),):
        return err(("s", "core::num::ParseIntError", fresh_id()))
    t = conv(items, radix)
    if E.decide(st, valid(items, radix)):
        return ok(t)
    return err(("s", "core::num::ParseIntError", fresh_id()))


def conv(items, radix):
    return ("t", "number", (("seq", "string", items), radix), NUM)


def valid(items, radix):
    return ("t", "converts", (("seq", "string", items), radix), "bool")


def wrapping_neg(E, st, c):
    return neg(c.args[0])


def neg(v):
    if isinstance(v, tuple) and v[0] == "t" and v[1] == "wrapping_neg":
        return v[2][0]
    return ("t", "wrapping_neg", (v,), NUM)


def judge(t, E, st, v):
    spec = st.ghost["spec"]
    if v[2] == 1:
        t.settle(E, st, lambda s: s[2] == "reject")
        spec = st.ghost["spec"]
        if spec[2] != "number":
            t.problem(st, "accepts an undocumented form", f"accepts {t.shown(st)}, which is not a documented form")
            return
        sign, radix = spec[3]
        ds = st.ghost["out"][2]
        want = conv(ds, radix)
        if sign == ord("-"):
            good = v[3][0] == neg(want) or v[3][0] == conv((sign,) + ds, radix)
        else:
            good = v[3][0] == want
        if not good:
            t.problem(st, "yields another value", f"decodes {t.shown(st)} to {show(v[3][0])}, it denotes "
                      f"{'minus ' if sign == ord('-') else ''}{show(want)}")
        return
    t.settle(E, st, lambda s: s[2] == "reject" or not st.ghost["rest"][2])
    spec = st.ghost["spec"]
    if spec[2] == "reject":
        return
    if spec[2] != "number":
        rest = st.ghost["rest"][2]
        if not rest:
            t.advance(E, st, None)
            spec = st.ghost["spec"]
        if spec[2] == "reject":
            return
    if spec[2] == "number":
        sign, radix = spec[3]
        ds = st.ghost["out"][2]
        failed = st.pt.get(valid(ds, radix)) == 0
        if sign == ord("-") and failed and st.pt.get(valid((sign,) + ds, radix)) != 0:
            t.problem(st, "rejects a negative number in range", f"rejects {t.shown(st)} although the type has that number: "
                      "the magnitude alone is out of range")
            return
        if failed:
            return
    t.problem(st, "rejects a documented form", f"rejects {t.shown(st)}, which is a documented form or may become one "
              f"(reference state: {spec[2]})")


HOOKS = {"laps::lexer::IntLiteral::from_str_radix": from_str_radix,
         "laps::lexer::IntLiteral::wrapping_neg": wrapping_neg}


@confirmed
def one(ck, prog, fn, signed):
    step, end, init = integer(signed)
    t = Text(prog, step, end, init, HOOKS)
    st = t.state()
    E = Engine(prog, t.hooks())
    E.partition = lambda st: st.ghost["spec"][2]
    exits, panics = [], []
    key = prog.by_npath(fn)[0]
    E.start(key, [("vref", t.text)], {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        E.judge(s, v, lambda s, v: judge(t, E, s, v))
    for s, m in panics:
        t.problem(s, "panics", "panics: " + m)
    if not exits and not E.undecided:
        t.problem(st, "never returns", "no path returns")
    name = fn.rsplit("::", 1)[-1]
    sp = prog.bodies[key].span
    ck.engine(E, name)
    for k, m, tr in t.problems:
        ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name} {m}", tr)
    ck.count("literal_functions")
    ck.count("exits", len(exits))
    ck.obligation(name, not t.problems, f"{len(exits)} exits, {E.nstates} abstract states")


def std_conv(E, st, c):
    t = E.prog.defs.get(c.key, {}).get("impl_self")
    return ("t", "std conversion", (("seq", "string", digits_of(E, st, c.args[0])), c.args[1], str(t)), NUM)


@confirmed
def impl(ck, prog, name, key, m, ty):
    """the implementation for a type is the standard function of that type"""
    bad = []
    E = Engine(prog, {"std::num::from_str_radix": std_conv})
    n = ("s", "int:" + ty[1], fresh_id())
    text = (("seg", CH, fresh_id(), False),)
    radix = ("s", "int:u32", fresh_id())

    def judge(st, v):
        if m == "wrapping_neg":
            want = wrap(E, st, lin_scale(st.ghost["n"], -1), ty)
            good = v == want or E.decide(st, E.cmp(st, "eq", v, want))
        else:
            good = v == ("t", "std conversion", (("seq", "string", text), radix, str(ty)), NUM)
        if not good:
            bad.append((show(v), st.trace_list()))
    outs = []
    E.start(key, [n] if m == "wrapping_neg" else [("vref", ("seq", "str", text)), radix], {}, st := State())
    if m == "wrapping_neg":
        st.ghost["n"] = n

    def out(E, s, v):
        outs.append((s, v))
    E.run(st, out, lambda E, s, msg: bad.append((msg, s.trace_list())))
    for s, v in outs:
        E.judge(s, v, judge)
    sp = prog.bodies[key].span
    ck.engine(E, name)
    for what, tr in bad[:1]:
        ck.violation(name, f"{sp[0]}:{sp[1]}", f"IntLiteral::{name} is not the standard function of that type: {what}", tr)
    ck.obligation(name, not bad, f"{len(outs)} exits")
    ck.count("implementations")


def impls(ck, prog):
    for imp in prog.impls_by_trait.get("laps::lexer::IntLiteral", []):
        for m, key, _ in imp["items"]:
            if key in prog.bodies:
                impl(ck, prog, f"{m} for {imp['self'][1]}", key, m, imp["self"])


def main():
    ck = Check("C13",
               "for every text: the code accepts exactly when the text is [sign] [0b|0o|0x] digits of that radix and the "
               "standard conversion of exactly these digits succeeds, and yields that conversion, negated for '-'",
               "Product of the MIR of the literal functions with a reference transducer, by abstract interpretation over "
               "an unknown text of any length; the standard conversion is an uninterpreted function of text and radix.")
    prog = program()
    for fn, signed in FNS.items():
        one(ck, prog, fn, signed)
    impls(ck, prog)
    provided(ck, prog, "laps::lexer::IntLiteral", [a + b for a in "iu" for b in ("8", "16", "32", "64", "128", "size")])
    ck.floor("literal_functions", 2)
    return ck.finish()
