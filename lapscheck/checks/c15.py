"""C15: derived lexers run the longest-run loop exactly."""
from ..common import Check, confirmed
from .. import lexers, lexspecs


def report(ck, w, E, key, name, exits):
    sp = w.prog.bodies[key].span
    ck.engine(E, name)
    bad = []
    for _, k, msg, tr in w.problems:
        if k not in bad:
            bad.append(k)
            ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"the lexer generated for {name} ({lexers.declared(w.lex)}) {msg}", tr)
    ck.obligation(name, not bad, f"{w.dfa.size} automaton states, {len(exits)} exits, {E.nstates} abstract states")
    ck.count("lexers")
    ck.count("exits", len(exits))


@confirmed
def one(ck, prog, crate, name):
    lex = next(l for l in lexspecs.QUICK + lexspecs.MORE if l.name == name)
    w, E, key, exits = lexers.explore(prog, crate, lex)
    report(ck, w, E, key, name, exits)


def run(ck, crate, ls):
    prog = lexers.witness(ck, crate)
    if prog is None:
        return
    for l in ls:
        one(ck, prog, crate, l.name)
        if len(ck.viol) > 4:
            ck.samples.append("stopped after the first violations")
            break


def main():
    ck = Check("C15",
               "product with the reference run: every character read in a state is consumed iff the automaton has a move, "
               "the first rejected one is given back, the token/skip/error/end-of-file outcome is that of the state "
               "stopped in, text = consumed characters, span = first to last",
               "Abstract interpretation of the next_token functions generated by derive(Tokenize) for the witness lexers, over an "
               "opaque input stream of unknown characters whose reads may fail or end anywhere, next to the minimal automaton "
               "built from the declared expressions by an independent construction.")
    run(ck, "w_lex", lexspecs.BASIC + [l for l in lexspecs.LANG if l.name in ("Prec", "Ops", "Str", "Single", "ByteEdges")])
    ck.floor("lexers", 10)
    return ck.finish()
