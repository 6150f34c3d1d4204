"""C03: predefined ASTs parse exactly their documented grammar."""
from ..common import Check, program, confirmed, provided
from ..grammar import run_parse, implementor, NONEMPTY, MAYEMPTY, TUPLES
from .c01 import report, parse_impls


@confirmed
def one(ck, prog, imp):
    w, E, key, name, known = run_parse(prog, imp)
    if not known:
        ck.undecided(name, "no documented grammar for this type")
        return
    report(ck, w, E, key, name, ("grammar",))
    ck.count("parsers")


def main():
    ck = Check("C03",
               "the sub-parses and predictions on every path follow the documented grammar automaton, and the value "
               "returned holds exactly the values parsed, in order",
               "Abstract interpretation of every Parse::parse implementation of laps over opaque sub-parsers, as a "
               "product with the grammar automaton written down from the documentation.")
    prog = program()
    for imp in parse_impls(prog):
        one(ck, prog, imp)
    provided(ck, prog, "laps::parse::Parse", NONEMPTY + MAYEMPTY + TUPLES, implementor)
    ck.floor("parsers", 20)
    return ck.finish()
