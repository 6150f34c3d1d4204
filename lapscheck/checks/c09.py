"""C09: the position of a reader always matches the characters consumed."""
from ..common import Check, program, confirmed
from ..readers import *
from .. import mir

IS = "laps::input::InputStream::"
READING = ("next_char_loc", "peek", "peek_with_span")


def S(items):
    return show(("seq", "s", tuple(items)))


def methods(prog, name):
    """the InputStream implementation of a reader: own methods, or the provided ones"""
    for imp in prog.impls_by_trait.get("laps::input::InputStream", []):
        if imp["self"][0] == "adt" and imp["self"][1] == name:
            sub = {"Self": imp["self"]}
            out = {}
            for m in ("next_char_loc", "unread", "span", "set_line_col", "next_char", "next_char_span", "next_span",
                      "peek", "peek_with_span"):
                k = imp["imap"].get(IS + m)
                out[m] = (k, {}) if k else (IS + m, sub)
            return out
    return {}


def after(E, st, prog, loc, c):
    """location after one more character"""
    names = [n for n, _ in prog.adts[spans.LOC]["variants"][0]["fields"]]
    nl = E.truth(st, E.cmp(st, "eq", c, 10))
    if nl is None:
        return None
    f = dict(zip(names, loc[3]))
    d = {"line": lin_add(f["line"], 1), "col": 0} if nl else {"line": f["line"], "col": lin_add(f["col"], 1)}
    return ("agg", spans.LOC, 0, tuple(d[n] for n in names))


def same(E, st, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("agg",) and b[:1] == ("agg",):
        return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(same(E, st, x, y) for x, y in zip(a[3], b[3]))
    if a == b:
        return True
    if E._numeric(a) and E._numeric(b):
        return E.truth(st, E.cmp(st, "eq", a, b)) == 1
    return False


def explore(prog, name, m):
    """run one method; judges are in judge()"""
    src = Source(prog, name)
    key, sub = methods(prog, name)[m]
    st = src.state()
    args = [src.REF]
    if m == "unread":
        o = E_choice = None
    E = Engine(prog, src.hooks())
    b = prog.bodies[key]
    rest = b.locals[2:b.argc + 1]
    ch = ("s", src.ch, fresh_id())
    if m == "unread":
        loc = ("agg", spans.LOC, 0, tuple(("s", "int:u32", fresh_id())
                                          for _ in prog.adts[spans.LOC]["variants"][0]["fields"]))
        alts = [(("agg", "tuple", 0, (some(ch), loc)),), (("agg", "tuple", 0, (NONE, loc)),)]
    elif m == "set_line_col":
        alts = [(("s", "int:u32", fresh_id()), ("s", "int:u32", fresh_id()))]
    else:
        alts = [()]
    out = []
    for a in alts:
        s0 = st.copy()
        if m == "span":
            s0.mem[("g", "r")] = s0.mem[CELL]
        E.panics = []
        exits = []
        E.start(key, [src.REF] + list(a), sub, s0)
        E.run(s0, lambda E, s, v: exits.append((s, v)), lambda E, s, x: E.panics.append((s, x)))
        for s, v in exits:
            out.append((s, v, a))
        for s, x in E.panics:
            if "attempt to add with overflow" in x or "Overflow" in x:
                continue        # lines and columns beyond u32
            src.problem(s, "position", "panics", x)
            src.problem(s, "bytes", "panics", x)
    if not out and not E.undecided:
        src.problem(st, "position", "never returns", "no path returns")
    return src, E, key, out


def report(ck, src, E, key, name, kinds):
    ck.engine(E, name)
    bad = [p for p in src.problems if p[0] in kinds]
    s = E.prog.bodies[key].span
    for kind, k, msg, trace in bad:
        ck.violation(f"{name}: {k}", f"{s[0]}:{s[1]}", f"{name}: {msg}", trace)
    ck.obligation(name, not bad, f"{len(E.bodies_used)} bodies, {E.nstates} abstract states")


def old_of(src, s):
    return s.ghost["old"]


def reading(src, E, s, v, m):
    """next_char_loc and the peeks"""
    prog = src.prog
    lay = src.lay
    old = old_of(src, s)
    osp = lay.get(old, "span")
    si, ei = start_field(prog)
    oloc = osp[3][si]
    nsp = src.span(s)
    now = src.upcoming(s)
    before = src.upcoming(s, old)
    if v[2] != 0:
        if not same(E, s, nsp, osp):
            src.problem(s, "position", "position moved on error", f"the span is {show(nsp)}, was {show(osp)}")
        return
    got = v[3][0]
    c, extra = (got, None) if m == "peek" else got[3]
    ch = c[3][0] if c[2] == 1 else None
    if isinstance(ch, tuple) and ch and ch[0] in ("vref", "mref"):
        ch = E.deref(s, ch)
    want = osp if ch is None else after(E, s, prog, oloc, ch)
    if ch is not None:
        if want is None:
            if nsp == osp and m == "peek":
                want = osp       # not looked at
            else:
                E.decide(s, E.cmp(s, "eq", ch, 10))
                return
        else:
            want = span_value(prog, want, want)
    if m == "next_char_loc":
        if not same(E, s, extra, oloc):
            src.problem(s, "position", "wrong location returned",
                        f"returns location {show(extra)}, the position before the character was {show(oloc)}")
        if not same(E, s, nsp, want):
            src.problem(s, "position", "position does not match the character",
                        f"after consuming {show(ch) if ch is not None else 'the end of input'} the span is {show(nsp)}, "
                        f"it was {show(osp)}")
    else:
        if not same(E, s, nsp, osp):
            src.problem(s, "position", "peeking moves the position", f"the span is {show(nsp)}, was {show(osp)}")
        if ch is not None and not (now and now[0] == ch):
            src.problem(s, "position", "peeked character is not the next one",
                        f"peeks {show(ch)}, upcoming are {S(now)}")
        if ch is None and now:
            src.problem(s, "position", "peeks the end of input before it", f"upcoming are {S(now)}")
        if m == "peek_with_span" and not same(E, s, extra, want):
            src.problem(s, "position", "peeked span differs from the one consuming would give",
                        f"returns {show(extra)} for {show(ch) if ch is not None else 'the end of input'} at {show(osp)}")


def judge(src, E, s, v, a, m):
    prog, lay = src.prog, src.lay
    old = old_of(src, s)
    si, ei = start_field(prog)
    osp, nsp = lay.get(old, "span"), src.span(s)
    now, before = src.upcoming(s), src.upcoming(s, old)
    if m in READING:
        reading(src, E, s, v, m)
        return
    if m in ("next_char", "next_char_span", "next_span"):
        return
    untouched = (lay.get(old, "bytes"), lay.get(old, "offset")) == (lay.get(s.mem[CELL], "bytes"),
                                                                    lay.get(s.mem[CELL], "offset"))
    if not untouched or s.ghost["D"][2]:
        src.problem(s, "position", "touches the byte source", f"{m} changes the undecoded bytes")
    if m == "unread":
        o, loc = a[0][3]
        want = ((o[3][0],) if o[2] == 1 else ()) + before
        if now != want:
            src.problem(s, "position", "unread character misplaced", f"upcoming are {S(now)} instead of {S(want)}")
        if not same(E, s, nsp, span_value(prog, loc, loc)):
            src.problem(s, "position", "position not restored", f"unread at {show(loc)} leaves the span {show(nsp)}")
    elif m == "set_line_col":
        names = [n for n, _ in prog.adts[spans.LOC]["variants"][0]["fields"]]
        d = {"line": a[0], "col": a[1]}
        loc = ("agg", spans.LOC, 0, tuple(d[n] for n in names))
        if not same(E, s, nsp, span_value(prog, loc, loc)) or now != before:
            src.problem(s, "position", "line and column not set", f"set_line_col({show(a[0])}, {show(a[1])}) leaves {show(nsp)}")
    elif m == "span":
        if E.deref(s, v) != osp or nsp != osp or now != before:
            src.problem(s, "position", "span is not the position", f"span() returns {show(v)} at {show(osp)}")


@confirmed
def one(ck, prog, name, m):
    src, E, key, out = explore(prog, name, m)
    ck.count("methods")
    for s, v, a in out:
        E.judge(s, v, lambda s, v: judge(src, E, s, v, a, m))
    report(ck, src, E, key, name.rsplit("::", 1)[-1] + "::" + m, ("position",))


def opened(E, st, src, v):
    """the parts of a freshly made reader"""
    lay = src.lay
    if not (v[0] == "agg" and v[1] == lay.name):
        raise Undecided("not a reader: " + show(v))
    return {r: x for r, x in zip(lay.role, v[3])}


@confirmed
def constructor(ck, prog, key, name):
    """a new reader: the given source, nothing buffered, line 1 column 0"""
    src = Source(prog, name)
    b = prog.bodies[key]
    made = []
    hooks = src.hooks()

    def outside(E, st, c):
        if c.npath in ("std::fs::File::open",):
            w = E.choice(st, "open", 2)
            if w:
                e = ("s", "IoError", fresh_id())
                st.ghost["err"] = e
                return err(e)
            return ok(("s", "@file", "f"))
        if c.npath in ("std::io::stdin", "std::io::stdio::stdin"):
            return ("s", "@stdin", "f")
        if c.npath == "std::convert::AsRef::as_ref" and c.targs[0][0] == "param":
            return ("vref", ("t", "asref", (E.deref(st, c.args[0]),), "std::path::Path"))
        if c.npath in ("std::io::Cursor::new",):
            return ("t", "cursor", (c.args[0],), "cursor")
        return NotImplemented
    E = Engine(prog, hooks)
    E.value_hooks.append(outside)
    from .c08 import spans as _s
    hooks.update({k: v for k, v in spans.HOOKS.items()})
    E.hooks = hooks
    st = State()
    args = [E.fresh(st, t) for t in b.locals[1:b.argc + 1]]
    nm = f"{name.rsplit('::', 1)[-1]} from " + (", ".join(mir.ty_str(t) for t in b.locals[1:b.argc + 1]) or "nothing") + \
        f" ({key.rsplit('::', 1)[-1]})"
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        if v[0] == "agg" and v[1] == RESULT:
            if v[2] == 1:
                if v[3][0] != s.ghost.get("err"):
                    src.problem(s, "position", "invents an error", show(v))
                continue
            v = v[3][0]
        p = opened(E, s, src, v)
        si, ei = start_field(prog)
        names = [n for n, _ in prog.adts[spans.LOC]["variants"][0]["fields"]]
        loc = ("agg", spans.LOC, 0, tuple({"line": 1, "col": 0}[n] for n in names))
        if p["span"][3][si] != loc or p["span"][3][ei] != loc:
            src.problem(s, "position", "a new reader is not at the start", show(p["span"]))
        if p["chars"][2]:
            src.problem(s, "position", "a new reader has characters", show(p["chars"]))
        if p.get("offset", 0) != 0:
            src.problem(s, "position", "a new reader has bytes", show(p["offset"]))
        x = p["source"]
        want = [args[0]] if args else []
        want += [("t", "cursor", tuple(args[:1]), "cursor"), ("s", "@file", "f"), ("s", "@stdin", "f")]
        if x not in want:
            src.problem(s, "position", "a new reader reads another source", f"{show(x)} for {show(args[0]) if args else ''}")
    for s, m in panics:
        src.problem(s, "position", "panics", m)
    report(ck, src, E, key, nm, ("position",))
    ck.count("constructors")


def constructors(prog, name):
    for key, b in sorted(prog.bodies.items()):
        if b.promoted is not None or not key.startswith("laps::") or b.kind not in ("AssocFn", "assocfn"):
            continue
        r = b.locals[0]
        if r[0] == "adt" and r[1] == RESULT and r[2][0][0] == "adt":
            r = r[2][0]
        if r[0] == "adt" and r[1] == name and not any(t[0] == "adt" and t[1] == name for t in b.locals[1:b.argc + 1]):
            yield key


def main():
    ck = Check("C09",
               "per reader method: returned location == position before, position after == position advanced by exactly "
               "the consumed character, unread and set_line_col restore exactly what they are given, peeks leave position "
               "and upcoming characters alone and report what consuming would",
               "Abstract interpretation of the MIR of both readers over an unknown byte source (every read may fail, end "
               "or deliver any number of bytes), any buffered characters and undecoded bytes, any position within u32.")
    prog = program()
    for name in READERS:
        for m in methods(prog, name):
            if m in ("next_char", "next_char_span", "next_span"):
                continue
            one(ck, prog, name, m)
        for key in constructors(prog, name):
            constructor(ck, prog, key, name)
    ck.floor("methods", 12)
    ck.floor("constructors", 10)
    return ck.finish()
