"""C07: locations and spans advance and combine exactly as specified."""
from ..common import Check, program, confirmed
from .. import spans, witfn
from ..values import *


def same_logger(E, s, v, args, out):
    ins = [a for a in args if isinstance(a, tuple) and a[0] == "agg" and a[1] == spans.SPAN]
    for sp in spans.spans_in(v):
        if not ins or spans.logger_of(E.prog, sp) != spans.logger_of(E.prog, ins[0]):
            out.problems.append(("logger", "the result does not share the original span's logger status", s.trace_list()))


@confirmed
def one(ck, prog, key):
    name = key.rsplit("::ob_", 1)[-1]
    E, out = witfn.explore(prog, key, spans.HOOKS, on=same_logger)
    # a location that cannot be advanced within u32 is outside the property
    witfn.report(ck, E, out, key, name, ignore_panic=lambda p: "attempt to add with overflow" in p[1] or "Overflow" in p[1])
    ck.count("obligation_functions")


def main():
    ck = Check("C07",
               "each obligation function over the public span operations is true on every abstract path and every span "
               "produced carries the logger status of the span it came from",
               "Abstract interpretation (intervals, equalities) of the MIR of the span operations, inlined in small "
               "witness functions whose arguments are unknown. Lines and columns beyond u32 are excluded.")
    prog = program("w_base", ("laps", "w_base"))
    for key in witfn.functions(prog, "w_base", "span"):
        one(ck, prog, key)
    ck.floor("obligation_functions", 15)
    return ck.finish()
