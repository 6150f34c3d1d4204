"""C27: library values cross threads whenever their parts may."""
from ..common import BuildFailure, Check, program
from .. import mir

CONFIGS = [("w_base", ("laps", "laps_regex"), "all features"), ("w_nolog", ("laps",), "without logger")]
ASK = {"send": ("send", "sent to another thread"), "sync": ("sync", "shared between threads")}


def borrows(a):
    """holds a shared reference to something the user chooses: sending it shares that"""
    def go(t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "ref" and not t[2]:
            return True
        return any(go(x) for x in t)
    return any(go(t) for v in a["variants"] for _, t in v["fields"])


def judge(ck, prog, key, a, where):
    auto = a["auto"]
    f, line = auto["line"]
    for what, (field, verb) in ASK.items():
        q = field + ("_if_both" if borrows(a) else "")
        ok, bad = auto[q]
        name = f"{key}: {what}, {where}"
        if not ok:
            ck.violation(f"{key}: {what}", f"{f}:{line}",
                         f"{key} cannot be {verb} although everything the user puts in it can ({where}): field "
                         + (", ".join(bad) or "?"))
        ck.obligation(name, ok)


def main():
    ck = Check("C27",
               "for every public type: Send follows from Send of its parameters, Sync from Sync of its parameters",
               "The compiler's trait solver is asked about every publicly reachable struct and enum of laps and laps_regex, "
               "with and without the logger, and those token_ast! generates, for all type parameters at once.")
    for witness, crates, where in CONFIGS + [("w_token", ("w_token",), "generated by token_ast!")]:
        try:
            prog = program(witness, crates, models=False)
        except BuildFailure:
            if witness == "w_base":
                raise
            ck.undecided(witness, "does not compile")
            continue
        for key, a in sorted(prog.adts.items()):
            auto = a.get("auto")
            if not auto or key.split("::")[0] not in crates:
                continue
            if witness == "w_token":
                if "__token_ast_" not in key:
                    continue
            elif not auto["public"]:
                continue
            ck.count("types")
            ck.functions.add(key)
            judge(ck, prog, key, a, where)
    ck.floor("types", 60)
    return ck.finish()
