"""C08: every diagnostic is counted once and carries its severity."""
from ..common import Check, program, confirmed, BuildFailure
from .. import spans, witfn
from ..values import *
from ..engine import MODE

WRITES = ("fetch_add", "fetch_sub", "store", "swap", "fetch_update", "compare_exchange", "compare_exchange_weak",
          "fetch_and", "fetch_or", "fetch_xor", "fetch_max", "fetch_min", "get_mut", "into_inner", "as_ptr")


def skip_printing(E, st, c):
    """a library function that returns nothing of interest and cannot reach a counter"""
    b = E.prog.bodies.get(c.key)
    if b is None or not c.key.startswith("laps::"):
        return NotImplemented
    r = b.locals[0]
    unit = r == ("tuple", ()) or r[0] == "adt" and r[1] == RESULT and r[2][0] == ("tuple", ()) and "fmt" in r[2][1][1]
    if not unit or any(isinstance(a, tuple) and a and a[0] == "mref" for a in c.args) or \
            spans.touches_counter(E.prog, c.key):
        return NotImplemented
    return UNIT if r == ("tuple", ()) else E.fresh(st, r)


@confirmed
def one(ck, prog, key, config):
    name = key.rsplit("::ob_", 1)[-1] + f" [{config}]"
    saved = witfn.Engine

    def mk(*a, **k):
        E = saved(*a, **k)
        E.havoc = spans.havoc
        E.value_hooks.append(skip_printing)
        # panics inside the excerpt printing belong to C28
        return E
    witfn.Engine = mk
    try:
        E, out = witfn.explore(prog, key, spans.HOOKS)
    finally:
        witfn.Engine = saved
    witfn.report(ck, E, out, key, name, ignore_panic=lambda p: True)
    ck.count("obligation_functions")


def counter_writers(ck, prog, config):
    """every instruction that can change a counter is a unit increment"""
    n = 0
    for key, b in prog.bodies.items():
        if not key.startswith("laps::"):
            continue
        for blk in b.blocks:
            if not blk or blk[1][0] != "call" or blk[1][1][0] != "const":
                continue
            t = blk[1][1][1]["t"]
            if t[0] != "fndef":
                continue
            d = prog.defs.get(t[1])
            np = d["npath"] if d else t[1]
            if np.startswith("std::sync::atomic::Atomic::"):
                m = np.rsplit("::", 1)[1]
                if m in WRITES:
                    n += 1
                    if m != "fetch_add":
                        ck.violation(f"{key}: {m}", f"{b.span[0]}:{blk[1][-1]}",
                                     f"counter changed by {m} instead of a unit increment [{config}]")
    ck.count("counter_updates", n)
    ck.obligation(f"counter updates are atomic increments [{config}]", True, f"{n} sites")


def main():
    ck = Check("C08",
               "for every log operation the change of the error and warning counts, seen through any other span of the "
               "same input, and the severity returned are exactly the documented ones, in both logger configurations",
               "Abstract interpretation of the MIR of laps compiled with and without the logger feature; calls to "
               "printing and file APIs are arbitrary (they cannot reach the private counters).")
    for wit, config in (("w_base", "logger"), ("w_nolog", "no logger")):
        try:
            prog = program(wit, ("laps", wit))
        except BuildFailure as e:
            ck.violation(f"does not build [{config}]", "/repo/src/span.rs",
                         f"laps without the logger feature does not compile, so nothing is counted: "
                         + first_error(e.text))
            continue
        for m in ("logs", "severity"):
            for key in witfn.functions(prog, wit, m):
                one(ck, prog, key, config)
        counter_writers(ck, prog, config)
    ck.floor("obligation_functions", 10)
    return ck.finish()


def first_error(text):
    ls = text.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error"):
            return l + " " + (ls[i + 1].strip() if i + 1 < len(ls) else "")
    return text[:200]
