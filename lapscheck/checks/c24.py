"""C24: unsupported regexes and ill-formed declarations are refused at compile time."""
from ..common import Check, program
from .. import progs, refusals
from .c30 import refusals as lowering


def said(ms):
    return ms[0]["message"][:300]


def crashed(ms):
    return [m for m in ms if "panicked" in m["message"] or "internal compiler error" in m["message"]]


def main():
    ck = Check("C24", "every ill-formed declaration has compile errors, and its well-formed twin has none",
               "The stable compiler expands and type-checks pairs of declarations that differ in just the offence; abstract "
               "interpretation of the lowering of every form of regex with arbitrary operands shows which forms it refuses.")
    progs.fresh()
    ext, errs = progs.build("w_f3")
    if errs:
        ck.violation("laps does not compile", progs.where(errs[0]), "laps does not compile: " + said(errs))
        return ck.finish()
    pairs = refusals.PAIRS
    res = progs.errors_of(ext, [p for _, b, g in pairs for p in (b, g)])
    for i, (what, bad, good) in enumerate(pairs):
        eb, eg = res[2 * i], res[2 * i + 1]
        ck.count("pairs")
        ok = bool(eb) and not crashed(eb) and not eg
        ck.obligation(what, ok)
        if not eb:
            ck.violation(f"accepted: {what}", "laps_macros/src", f"a declaration with {what} compiles", bad.splitlines())
        elif crashed(eb):
            ck.violation(f"crash: {what}", progs.where(crashed(eb)[0]),
                         f"a declaration with {what} makes the macro panic: {said(crashed(eb))}", bad.splitlines())
        if eg:
            ck.violation(f"refused: {what}", progs.where(eg[0]),
                         f"a well-formed declaration (next to: {what}) does not compile: {said(eg)}", good.splitlines())
    lowering(ck, program(crates=("laps_regex",)))
    ck.floor("pairs", 150)
    return ck.finish()
