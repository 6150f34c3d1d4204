"""C17: building an automaton in parallel gives the same language as building it serially."""
from ..common import Check, confirmed, program
from .. import lexers, lexspecs, powerset
from .c15 import report

MODES = {"serial": False, "parallel": True, "automatic": None}


def systems(tier):
    out = [([(0,), (1,)], 2), ([(0,), (1,), (1, 2)], 1), ([(1,), (0,), (2,)], 1)]
    if tier == "thorough":
        out += [([(0,), (1,), (2,)], 2), ([(0,), (1,)], 3), ([(1,), (2,), (1, 2), (0,)], 1)]
    return out


def label(sets, n):
    return f"sets {' '.join('{' + ','.join(map(str, s)) + '}' for s in sets)}, {n} symbols"


@confirmed
def product(ck, prog, i):
    sets, n = systems(ck.tier)[i]
    found, tr = {}, {}
    for m, par in MODES.items():
        ps, E, exits, key = powerset.explore(prog, sets, n, par, max_steps=None if ck.tier == "quick" else 60000000)
        name = f"DFA::new, {m}, {label(sets, n)}"
        ck.engine(E, name)
        ck.count("transition_functions", len(exits))
        found[m] = {}
        for k, msg, t in ps:
            found[m].setdefault(k, (msg, t))
    sp = prog.bodies[key].span
    bad = False
    for m in MODES:
        for k, (msg, t) in found[m].items():
            others = [o for o in MODES if k not in found[o]]
            if others:
                bad = True
                ck.violation(f"DFA::new: {k} {m}", f"{sp[0]}:{sp[1]}",
                             f"built {m}, unlike {' and '.join(others)}, the automaton is wrong ({k}): {msg}", t)
            else:
                ck.samples.append(f"{k} in every mode: {msg}")
    ck.obligation(f"DFA::new, {label(sets, n)}", not bad, f"{len(exits)} transition functions in each mode")
    ck.count("systems")


@confirmed
def pair(ck, prog, crate, base, members):
    found = {}
    for name in members:
        lex = next(l for l in lexspecs.QUICK if l.name == name)
        w, E, key, exits = lexers.explore(prog, crate, lex)
        ck.engine(E, name)
        ck.count("lexers")
        found[name] = {}
        for _, k, msg, tr in w.problems:
            found[name].setdefault(k, (msg, tr, key))
    bad = False
    for n in members:
        for k, (msg, tr, key) in found[n].items():
            others = [o for o in members if k not in found[o]]
            if others:
                bad = True
                sp = prog.bodies[key].span
                ck.violation(f"{n}: {k}", f"{sp[0]}:{sp[1]}", f"the lexer generated for {n} {msg}, unlike that generated for {others[0]}", tr)
            elif len(members) == 1:
                bad = True
                sp = prog.bodies[key].span
                ck.violation(f"{n}: {k}", f"{sp[0]}:{sp[1]}", f"the lexer generated in parallel for {n} {msg}", tr)
    ck.obligation(base, not bad, f"{', '.join(members)} next to the reference automaton")
    ck.count("pairs")


def main():
    ck = Check("C17",
               "the automaton built serially, in parallel and automatically deviate from the reference in the same way, if at all",
               "Abstract interpretation of DFA::new in the three modes over every transition function on a few named sets of "
               "states (rayon's indexed adaptors keep the order of their items, in whatever order these are computed), and of "
               "the lexers generated with parallel(true), parallel(false) and neither for the same declarations.")
    prog = program(crates=("laps_regex",))
    for i in range(len(systems(ck.tier))):
        product(ck, prog, i)
    wit = lexers.witness(ck, "w_lex")
    if wit is not None:
        done = set()
        for l in lexspecs.PAR:
            base = l.name[:-3] if l.name[-3:] in ("Par", "Ser") else l.name
            if base in done:
                continue
            done.add(base)
            pair(ck, wit, "w_lex", base, [n.name for n in lexspecs.QUICK if n.name in (base, base + "Par", base + "Ser")])
    ck.floor("systems", 3)
    ck.floor("pairs", 5)
    return ck.finish()
