"""C20: symbol neighbours are exact and never leave the symbol type."""
from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State

TRAIT = "laps_regex::mir::SymbolOp"
DOMS = {"char": CHAR_DOM, "u8": ((0, 255),)}


def neighbour(dom, up):
    """(sub-domain, function) pairs: what the neighbour of a value in the sub-domain is"""
    out = []
    ivs = list(dom) if up else list(reversed(dom))
    for i, (l, r) in enumerate(ivs):
        edge, inner = (r, (l, r - 1)) if up else (l, (l + 1, r))
        if inner[0] <= inner[1]:
            out.append(((inner,), 1 if up else -1))
        nxt = None
        if i + 1 < len(ivs):
            nxt = ivs[i + 1][0 if up else 1]
        out.append((((edge, edge),), ("const", nxt)))
    return out


@confirmed
def one(ck, prog, ty, method, key):
    dom = DOMS[ty]
    name = f"{ty}::{method}"
    label = ty if ty == "char" else "int:" + ty
    st = State()
    x = ("s", label, fresh_id())
    st.mem[("g", "x")] = x
    problems = []

    E = Engine(prog)
    E.strict = True
    exits, panics = [], []
    E.start(key, [("vref", x)], {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))

    if E.misuse:
        problems.append(("invalid character", E.misuse[0][3], E.misuse[0][4]))
    for s, m in panics:
        problems.append(("panic", f"panics: {m}", s.trace_list()))
    for s, v in exits:
        cur = s.mem[("g", "x")]
        E.discr(s, v)
        have = ((cur, cur),) if isinstance(cur, int) else E.dom_of(s, cur)
        for sub, f in neighbour(dom, method == "next"):
            d = dom_inter(have, sub)
            if not d:
                continue
            if isinstance(f, tuple):
                want = NONE if f[1] is None else some(f[1])
            else:
                want = some(lin_add(cur, f))
            got = v
            if len(d) == 1 and d[0][0] == d[0][1] and not isinstance(cur, int):
                sb = Subst({cur: d[0][0]})
                got, want = sb(got), sb(want)
            if got[2] != want[2] or got != want and E.truth(s, E.cmp(s, "eq", got[3][0], want[3][0])) != 1:
                problems.append(("wrong neighbour", f"{method} of {d[0][0]:#x}..={d[-1][1]:#x} is {show(got)}, expected "
                                 f"{show(want)}", s.trace_list()))
    if not exits and not panics and not E.undecided:
        problems.append(("diverges", "never returns", []))
    ck.engine(E, name)
    sp = prog.bodies[key].span
    for k, msg, tr in problems:
        ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name}: {msg}", tr)
    ck.obligation(name, not problems, f"{E.nstates} abstract states")
    ck.count("functions_judged")


def main():
    ck = Check("C20",
               "for every value the result is the adjacent value of the type (across the surrogate gap), none at the end; "
               "no overflow, no panic, every unchecked conversion within the scalar values",
               "Abstract interpretation (interval sets, linear terms) of every SymbolOp implementation over an unknown value.")
    prog = program(crates=("laps_regex",))
    for imp in prog.impls_by_trait[TRAIT]:
        ty = imp["args"][0]
        t = ty[-1]
        if t not in DOMS:
            ck.undecided(str(ty), "unknown symbol type")
            continue
        for n, key, tk in imp["items"]:
            one(ck, prog, t, n, key)
    ck.floor("functions_judged", 4)
    return ck.finish()
