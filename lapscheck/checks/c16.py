"""C16: derived lexer automata accept exactly the declared regular expressions."""
from ..common import Check, confirmed, program
from .. import lexspecs, powerset
from .c15 import run
from .c17 import systems, label


@confirmed
def subsets(ck, prog, i):
    sets, n = systems(ck.tier)[i]
    name = f"DFA::new, {label(sets, n)}"
    bad = []
    for backwards in (False, True):
        ps, E, exits, key = powerset.explore(prog, sets, n, False, backwards, None if ck.tier == "quick" else 60000000)
        ck.engine(E, name)
        ck.count("transition_functions", len(exits))
        for k, msg, tr in ps:
            if k not in bad:
                bad.append(k)
                sp = prog.bodies[key].span
                ck.violation(f"DFA::new: {k}", f"{sp[0]}:{sp[1]}", f"the minimal automaton built from an expression's automaton is wrong: {msg}", tr)
    ck.obligation(name, not bad, f"{len(exits)} transition functions")


def main():
    ck = Check("C16",
               "product with an independently built minimal automaton: in every state the generated code moves on exactly the "
               "characters that extend some match, to the equivalent state, selecting the first declared expression that "
               "matches; every table lookup in range",
               "Abstract interpretation of the code generated for a catalogue of declarations (repetitions, overlapping ranges "
               "and alternatives, shared heads and tails, byte lexers, automata of 255 to 257 states, random expressions), each "
               "for all texts.")
    run(ck, "w_lex", lexspecs.LANG + [l for l in lexspecs.BASIC if l.name in ("Gaps", "BytesLit")] + lexspecs.BIG + lexspecs.RANDOM)
    if ck.tier == "thorough" and len(ck.viol) < 5:
        run(ck, "w_lexmore", lexspecs.MORE)
    prog = program(crates=("laps_regex",))
    for i in range(len(systems(ck.tier))):
        subsets(ck, prog, i)
    ck.floor("lexers", 60)
    return ck.finish()
