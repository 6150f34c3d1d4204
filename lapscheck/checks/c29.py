"""C29: every unchecked operation is justified where it happens."""
import importlib
from .. import common
from ..common import Check, program
from ..engine import UNSAFE_CALLS

CRATES = ("laps", "laps_regex", "laps_macros")
# explorations of the code around the unchecked operations, in the order they are consulted
WHERE = ["C20", "C10", "C09", "C11", "C12", "C13", "C26", "C07", "C08", "C23", "C22", "C21", "C02", "C01", "C05",
         "C28", "C17", "C03", "C04", "C18", "C14"]
ENOUGH = 2


class Shadow(Check):
    """runs the exploration of another check; keeps what concerns unchecked operations"""
    wants_misuse = True

    def __init__(self, ck, deciding):
        self.ck = ck
        self.pid = ck.pid
        self.tier, self.seed = ck.tier, ck.seed
        self.findings, self.samples, self.viol, self.undec, self.counts = [], [], [], [], {}
        self.functions, self.floors, self.known = set(), {}, []
        self.deciding = deciding
        self.obl = []

    def violation(self, key, where, message, trace=()):
        if message.startswith("unchecked operation "):
            self.ck.violation(key, where, message, trace)

    def undecided(self, where, message):
        if self.deciding:
            self.ck.undecided(where, message)

    def finish(self):
        self.ck.functions |= self.functions
        self.ck.count("abstract_states", self.counts.get("abstract_states", 0))
        return 0


def sites(prog):
    """(body, line, operation) of every unsafe call the user wrote; places that hold something else"""
    out, other = [], []
    for b in prog.bodies.values():
        if b.crate not in CRATES or not b.unsafe:
            continue
        found = set()
        for blk in b.blocks:
            for x in blk[0] if blk else ():
                if x[0] == "=" and x[2][0] == "cast" and x[2][1] == "Transmute" \
                        and x[2][3][0] not in ("ptr", "ref") and not from_pointer(b, x[2][2]):
                    rng = [r for r in b.unsafe if r[0] <= x[-1] <= r[1]]
                    if rng:
                        out.append((b.key, x[-1], "transmute"))
                        found |= {tuple(r) for r in rng}
            t = blk[1] if blk else None
            if t is None or t[0] != "call" or t[1][0] != "const":
                continue
            ft, line = t[1][1]["t"], t[6]
            if ft[0] != "fndef":
                continue
            d = prog.defs.get(ft[1])
            rng = [r for r in b.unsafe if r[0] <= line <= r[1]]
            if d and d.get("unsafe") and rng:
                out.append((b.key, line, d["npath"]))
                found |= {tuple(r) for r in rng}
        for r in b.unsafe:
            if tuple(r) not in found:
                other.append((b, r[0], "an unsafe block without a call to a known unchecked operation"))
        if raw_pointers(b):
            other.append((b, b.unsafe[0][0], "raw pointers"))
    return out, other


def from_pointer(b, o):
    """the compiler's own alignment checks look at addresses"""
    return o[0] in ("copy", "move") and len(o[1]) == 1 and b.locals[o[1][0]][0] == "ptr"


def raw_pointers(b):
    """pointers the user made (not those the compiler uses to reach into a box)"""
    ptr = {i for i, t in enumerate(b.locals) if t[0] == "ptr"}
    if any(i <= b.argc or b.names[i] for i in ptr):
        return True
    for blk in b.blocks:
        for s in blk[0] if blk else ():
            if s[0] == "=" and s[1][0] in ptr and not (
                    s[2][0] == "cast" and s[2][1] in ("BoxDerefTransmute", "PtrToPtr")):
                return True
        if blk and blk[1][0] == "call" and blk[1][3][0] in ptr:
            return True
    return False


def main():
    ck = Check("C29",
               "every unsafe operation written in the three crates is reached only with what it requires: bytes found "
               "valid by validation, scalar values, indices in bounds, values that are there",
               "Inventory of the unsafe blocks, functions and impls in the type-checked program; each operation is a "
               "proof obligation in the abstract interpretation of the code around it, over every input.")
    prog = program(crates=CRATES)
    todo, other = sites(prog)
    for b, line, why in other:
        ck.undecided(f"{b.span[0]}:{line}", f"{why} in {b.key}")
    for imp in prog.impls:
        if imp.get("unsafe") and not imp.get("derived") and imp["crate"] in CRATES:
            ck.undecided(f"{imp['line'][0]}:{imp['line'][1]}", f"unsafe impl of {imp['trait']}")
    quoted = [b for b in prog.bodies.values() if b.crate == "laps_macros" and quotes_unsafe(b)]
    for b in quoted:
        ck.undecided(f"{b.span[0]}:{b.span[1]}", f"{b.key} may put `unsafe` in generated code")
    UNSAFE_CALLS.clear()
    begun = common.time.time()
    left = [s for s in todo if s not in UNSAFE_CALLS]
    for i, pid in enumerate(WHERE):
        if i >= ENOUGH and not left or common.time.time() - begun > 500:
            break
        m = importlib.import_module("lapscheck.checks." + pid.lower())
        real, m.Check = m.Check, lambda *a, **k: Shadow(ck, i < ENOUGH)
        try:
            m.main()
        finally:
            m.Check = real
        ck.count("explorations")
        left = [s for s in todo if s not in UNSAFE_CALLS]
    for s in todo:
        body, line, op = s
        if s in left:
            ck.undecided(f"{body}:{line}", f"no exploration reaches {op}")
        bad = any(v["key"].startswith(f"{body}: {op}") for v in ck.viol)
        ck.obligation(f"{op} in {body}", not bad, "" if s not in left else "not reached")
    ck.count("bodies_searched", sum(1 for b in prog.bodies.values() if b.crate in CRATES))
    ck.count("unsafe_operations", len(todo))
    ck.floor("bodies_searched", 400)
    return ck.finish()


def quotes_unsafe(b):
    """an identifier token `unsafe` among the constants of a function that builds code"""
    def strings(x):
        if isinstance(x, dict):
            for v in x.values():
                yield from strings(v)
        elif isinstance(x, (tuple, list)):
            for v in x:
                yield from strings(v)
        elif isinstance(x, str):
            yield x
    return any(s == "unsafe" for blk in b.blocks if blk for s in strings(blk))
