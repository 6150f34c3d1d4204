"""C22: automaton state identifiers are globally unique."""
from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State
from ..stream import where
from .. import maps, sync, mir

FA = "laps_regex::fa::FiniteAutomaton"
FIRST = 1000        # identifiers of existing automata lie below


def layout(prog):
    """positions of the fields of an automaton, by type"""
    f = prog.adts[FA]["variants"][0]["fields"]
    pos = {}
    for i, (n, t) in enumerate(f):
        k = maps.kind_of_type(t)
        if k == "map":
            pos["states"] = i
        elif k == "set":
            pos["finals"] = i
        elif t[0] == "int":
            pos["init"] = i
        else:
            pos.setdefault("other", []).append((i, t))
    return pos, len(f)


def automaton(prog, init, others, finals):
    pos, n = layout(prog)
    v = [None] * n
    v[pos["states"]] = ("seq", "map", tuple(tuple_(k, ("s", "State", fresh_id())) for k in (init,) + tuple(others)))
    v[pos["finals"]] = ("seq", "set", tuple(finals))
    v[pos["init"]] = init
    for i, t in pos.get("other", []):
        v[i] = ("agg", t[1], 0, ())
    return ("agg", FA, 0, tuple(v))


def automata_in(v, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple) and v:
        if v[:2] == ("agg", FA):
            out.append(v)
        elif v[0] not in ("s", "seg"):
            for x in v:
                if isinstance(x, tuple):
                    automata_in(x, out)
    return out


def is_fa(t):
    return t[0] == "adt" and t[1] == FA


@confirmed
def one(ck, prog, key):
    name = prog.defs[key]["npath"].split("::", 2)[-1] if key in prog.defs else key
    w = sync.Shared(FIRST)
    hooks = maps.hooks()
    hooks.update(w.hooks())
    for n in ("std::convert::From::from", "std::convert::Into::into"):
        hooks[n] = maps.h_conv
    hooks["laps_regex::fa::State::new"] = lambda E, st, c: ("s", "State", fresh_id())
    E = Engine(prog, hooks)
    st = State()
    body = prog.bodies[key]
    args, given = [], []
    base = 0
    for n, t in enumerate(body.locals[1:body.argc + 1]):
        inner = t[1] if t[0] == "ref" else t
        if is_fa(inner):
            v = automaton(prog, base, (base + 1, base + 2), (base + 1,))
            given.append(v)
            base += 10
            if t[0] == "ref":
                cell = ("g", f"fa{n}")
                st.mem[cell] = v
                args.append(("mref", cell, ()) if t[2] else ("vref", v))
            else:
                args.append(v)
        elif t == ("int", "usize"):
            x = ("s", "int:usize", fresh_id())
            st.dom[x] = ((0, 2),)
            args.append(x)
        else:
            args.append(E.fresh(st, t))
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    pos, _ = layout(prog)
    old = {}
    for v in given:
        for e in v[3][pos["states"]][2]:
            old[e[3][0]] = e[3][1]
    held = False
    for s, v in exits:
        if any(isinstance(k, tuple) and k[0] == "held" for k in s.ghost):
            w.problem(s, "counter stays locked", "returns with the shared counter locked")
        kept = {}
        for cell, x in list(s.mem.items()) + [("result", v)]:
            if cell == "result" or cell[0] == "g" and str(cell[1]).startswith("fa"):
                for a in automata_in(x):
                    states(E, s, w, a, pos, old, kept)
        if any(t[0] == "ref" and t[2] and is_fa(t[1]) for t in body.locals[1:body.argc + 1]) or kept and given:
            for k, x in old.items():
                if kept.get(k) != x:
                    w.problem(s, "states merged or lost", f"state {k} of an operand is {'lost' if k not in kept else 'replaced'}")
    ck.engine(E, name)
    sp = body.span
    for k, msg, tr in w.problems:
        ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name}: {msg}", tr)
    ck.obligation(name, not w.problems, f"{E.nstates} abstract states, {len(exits)} paths")
    ck.count("operations")
    if any("regions" in s.ghost for s, _ in exits):
        ck.count("issuing_operations")


def states(E, s, w, a, pos, old, kept):
    m = a[3][pos["states"]]
    if not maps.is_map(m):
        E.undecided.append(("states " + show(m), "result"))
        return
    regions = [r[3] for r in s.ghost.get("regions", ("agg", "", 0, ()))[3]]
    seen = []
    for e in m[2]:
        k, x = e[3]
        if isinstance(k, int) and k in old:
            kept[k] = x
            continue
        if any(k == j for j in seen):
            w.problem(s, "identifier used twice", f"identifier {show(k)} is used twice")
        seen.append(k)
        mine = [r for r in regions if E.truth(s, E.cmp(s, "le", r[0], k)) == 1 and E.truth(s, E.cmp(s, "lt", k, r[1])) == 1]
        if not mine:
            w.problem(s, "identifier not reserved", f"state {show(k)} was not reserved in the shared counter: no access "
                      f"read a value up to it and left a larger one ({', '.join('%s..%s' % (show(x), show(y)) for x, y in regions) or 'no access'})")
    init = a[3][pos["init"]]
    if not any(e[3][0] == init for e in m[2]):
        w.problem(s, "initial state missing", f"the initial state {show(init)} is not one of the states")


def main():
    ck = Check("C22",
               "every identifier under which a state is stored was reserved in one uninterrupted access to the shared "
               "counter (value on entry <= id < value on exit), the counter never goes back, and no operation loses or "
               "replaces a state of its operands",
               "Abstract interpretation of every function of FiniteAutomaton; the counter may be advanced by other threads "
               "whenever it is not held.")
    prog = program(crates=("laps_regex",))
    for key in sorted(prog.bodies):
        d = prog.defs.get(key)
        b = prog.bodies[key]
        if not key.startswith("laps_regex::fa::") or d is None or b.promoted is not None or "closure" in key:
            continue
        ts = list(b.locals[:b.argc + 1])
        if d["npath"].endswith("::dump"):
            continue
        mutable = [t for t in ts[1:] if t[0] == "ref" and t[2] and is_fa(t[1])]
        if mutable or is_fa(ts[0]):
            one(ck, prog, key)
    ck.floor("operations", 5)
    ck.floor("issuing_operations", 3)
    return ck.finish()
