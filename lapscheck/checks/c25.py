"""C25: every feature combination builds, and macro output is hygienic."""
from ..common import Check
from .. import hygiene, progs


def shown(ms):
    m = ms[0]
    return m["message"][:300]


def main():
    ck = Check("C25", "every feature combination type-checks, and so does every program using the macros correctly, "
               "whatever unrelated names it defines",
               "The stable compiler type-checks laps in every combination of its features and, in those with macros, a "
               "battery of user modules defining the names that generated code could mention.")
    progs.fresh()
    cases = hygiene.programs()
    for combo, crate in progs.COMBOS.items():
        ext, said = progs.build(crate)
        ck.obligation(f"features: {combo}", not said)
        ck.count("feature combinations")
        if said:
            ck.violation(f"features: {combo}", progs.where(said[0]),
                         f"laps does not compile with {combo}: {shown(said)}")
            continue
        if "macros" not in combo:
            programs = {"logging": hygiene.LOG.split("pub fn unwraps")[0]}
            runs = [("2021", programs)]
        else:
            runs = [("2021", cases)] + [(ed, {n: cases[n] for n in names}) for ed, names in hygiene.EDITIONS.items()]
        for edition, programs in runs:
            names = list(programs)
            for n, es in zip(names, progs.errors_of(ext, [programs[n] for n in names], edition)):
                ck.count("programs")
                ck.obligation(f"{n} ({combo}, edition {edition})", not es)
                if es:
                    ck.violation(n, progs.where(es[0]),
                                 f"a correct program does not compile ({n}; {combo}; edition {edition}): {shown(es)}",
                                 [e["message"][:200] for e in es[:4]])
    ck.floor("feature combinations", 4)
    ck.floor("programs", 200)
    return ck.finish()
