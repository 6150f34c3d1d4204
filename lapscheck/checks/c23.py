"""C23: the regex matcher's entry points all walk the transition table."""
from ..common import Check, program, confirmed
from ..values import *
from ..engine import Engine, State
from ..stream import where
from ..std import pop_side, ITER, isseg, place_of
from .. import maps, mir

RE = "laps_regex::re::RegexMatcher"
TABLE = "laps_regex::table::StateTransTable"
ST = "int:usize"
INIT = ("s", ST, "initial state")


class Walk:
    """an opaque table: lookups are compared with the walk over the given symbols

    ghost q     state reached, or 0 after a rejected symbol
    ghost rest  symbols not looked up yet
    """

    def __init__(self, prog, symbols):
        self.prog = prog
        self.symbols = symbols
        self.problems = []

    def problem(self, st, key, msg):
        self.problems.append((key, msg, st.trace_list()))

    def mine(self, E, st, v):
        try:
            v = E.deref(st, v)
        except Undecided:
            return False
        return isinstance(v, tuple) and v[:2] == ("s", TABLE)

    def init_id(self, E, st, c):
        return INIT if self.mine(E, st, c.args[0]) else NotImplemented

    def next_state(self, E, st, c):
        if not self.mine(E, st, c.args[0]):
            return NotImplemented
        i, s = c.args[1], E.deref(st, c.args[2])
        q, rest = st.ghost["q"], st.ghost["rest"][2]
        if q == 0:
            self.problem(st, "goes on after a rejected symbol", f"looks {show(s)} up after a symbol was rejected")
            raise Infeasible()
        if i != q and E.truth(st, E.cmp(st, "eq", i, q)) != 1:
            self.problem(st, "starts from another state", f"looks {show(s)} up in state {show(i)} where {show(q)} was reached")
            raise Infeasible()
        if not rest or isseg(rest[0]) or rest[0] != s:
            self.problem(st, "looks up another symbol", f"looks {show(s)} up where {show(rest[0]) if rest else 'nothing'} is next")
            raise Infeasible()
        if E.choice(st, "accepted", 2):
            n = ("s", ST, fresh_id())
            st.ghost["q"] = n
            st.ghost["rest"] = ("seq", "text", rest[1:])
            st.note(f"{where(c)}: {show(i)} --{show(s)}--> {show(n)}")
            return some(n)
        st.ghost["q"] = 0
        st.ghost["kept"] = q
        st.note(f"{where(c)}: {show(i)} rejects {show(s)}")
        return NONE

    def is_final(self, E, st, c):
        if not self.mine(E, st, c.args[0]):
            return NotImplemented
        t = ("t", "tag", (c.args[1],), "Tag")
        if E.choice(st, "final", 2):
            return some(("vref", t))
        return NONE if st.ghost.__setitem__("none", tuple_(c.args[1])) is None else None

    def bytes(self, E, st, c):
        v = E.deref(st, c.args[0])
        if v != st.ghost["text"]:
            return NotImplemented
        if c.npath.endswith("as_bytes"):
            return ("vref", ("seq", "slice", st.ghost["rest"][2]))
        return ("agg", ITER, 0, (("seq", "slice", st.ghost["rest"][2]), 0))

    def hooks(self):
        h = {TABLE + "::init_id": self.init_id, TABLE + "::next_state": self.next_state, TABLE + "::is_final": self.is_final}
        if self.symbols == "bytes of a string":
            for n in ("std::str::bytes", "std::str::as_bytes"):
                h[n] = self.bytes
        return h


def layout(prog):
    fs = prog.adts[RE]["variants"][0]["fields"]
    t = next(i for i, (n, x) in enumerate(fs) if x[0] == "adt" and x[1] == TABLE)
    s = next(i for i, (n, x) in enumerate(fs) if x == ("int", "usize"))
    return t, s, len(fs)


def matcher(prog, state):
    t, s, n = layout(prog)
    if n != 2:
        raise Undecided(f"{RE} has {n} fields")
    f = [None, None]
    f[t], f[s] = ("s", TABLE, "table"), state
    return ("agg", RE, 0, tuple(f))


def run(prog, w, key, st, args):
    E = Engine(prog, w.hooks())
    exits, panics = [], []
    E.start(key, args, {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, m in panics:
        w.problem(s, "panics", "panics: " + m)
    if not exits and not E.undecided:
        w.problem(st, "never returns", "no path returns")
    return E, exits


def report(ck, w, E, prog, key, name, exits):
    sp = prog.bodies[key].span
    ck.engine(E, name)
    for k, msg, tr in w.problems:
        ck.violation(f"{name}: {k}", f"{sp[0]}:{sp[1]}", f"{name} {msg}", tr)
    ck.obligation(name, not w.problems, f"{len(exits)} exits, {E.nstates} abstract states")
    ck.count("operations")


def cell_state(prog, s):
    return s.mem[("g", "m")][3][layout(prog)[1]]


@confirmed
def whole(ck, prog, key, name, symbols):
    w = Walk(prog, symbols)
    st = State()
    st.mem[("g", "m")] = matcher(prog, ("s", ST, "any state"))
    lab = {"symbols": "S", "characters of a string": "char", "bytes of a string": "int:u8"}[symbols]
    seg = (("seg", lab, fresh_id(), False),)
    st.ghost["rest"] = ("seq", "text", seg)
    st.ghost["q"] = INIT
    text = ("seq", "slice", seg) if symbols == "symbols" else ("seq", "str", seg)
    if symbols == "bytes of a string":
        text = ("seq", "str", (("seg", "char", fresh_id(), False),))
        st.ghost["text"] = text
    E, exits = run(prog, w, key, st, [("vref", st.mem[("g", "m")]), ("vref", text)])

    def judge(s, v):
        q, rest = s.ghost["q"], s.ghost["rest"][2]
        if q == 0:
            if v != NONE:
                w.problem(s, "matches a rejected text", f"returns {show(v)} though a symbol was rejected")
        elif rest:
            w.problem(s, "ends before the text", f"returns {show(v)} without having looked at {show(s.ghost['rest'])}")
        else:
            verdict(E, w, s, v, q)
    for s, v in exits:
        E.judge(s, v, judge)
    report(ck, w, E, prog, key, name, exits)


def verdict(E, w, s, v, q):
    if v == NONE:
        if s.ghost.get("none") != tuple_(q):
            w.problem(s, "wrong verdict", f"reports no match without looking whether {show(q)} is final")
    elif not (v[0] == "agg" and v[2] == 1 and E.deref(s, v[3][0]) == ("t", "tag", (q,), "Tag")):
        w.problem(s, "wrong verdict", f"returns {show(v)} where the tag of {show(q)} is expected")


@confirmed
def step(ck, prog, key, name):
    w = Walk(prog, "symbols")
    st = State()
    q = ("s", ST, fresh_id())
    x = ("s", "S", fresh_id())
    st.mem[("g", "m")] = matcher(prog, q)
    st.ghost["q"], st.ghost["rest"] = q, ("seq", "text", (x,))
    E, exits = run(prog, w, key, st, [("mref", ("g", "m"), ()), ("vref", x)])
    for s, v in exits:
        now, g = cell_state(prog, s), s.ghost["q"]
        if s.ghost["rest"][2] and g != 0:
            w.problem(s, "symbol not looked up", f"returns {show(v)} without a lookup")
        elif v != int(g != 0):
            w.problem(s, "wrong verdict", f"returns {show(v)} although the symbol was {'accepted' if g else 'rejected'}")
        elif now != (g or s.ghost["kept"]):
            w.problem(s, "wrong state", f"is in {show(now)} afterwards, expected {show(g or s.ghost['kept'])}")
    report(ck, w, E, prog, key, name, exits)


@confirmed
def simple(ck, prog, key, name, what):
    w = Walk(prog, "symbols")
    st = State()
    q = ("s", ST, fresh_id())
    st.mem[("g", "m")] = matcher(prog, q)
    st.ghost["q"], st.ghost["rest"] = q, ("seq", "text", ())
    me = ("mref", ("g", "m"), ())
    args = {"state": [me], "is_final": [me], "is_state_final": [me, ("s", ST, "given")], "reset": [me],
            "new": [("s", TABLE, "table")], "into table": [matcher(prog, q)]}[what]
    E, exits = run(prog, w, key, st, args)
    for s, v in exits:
        if what in ("new", "into table"):
            want = matcher(prog, INIT) if what == "new" else ("s", TABLE, "table")
            if v != want:
                w.problem(s, "wrong result", f"returns {show(v)}, expected {show(want)}")
            continue
        now = cell_state(prog, s)
        if now != (INIT if what == "reset" else q):
            w.problem(s, "wrong state", f"leaves the matcher in {show(now)}")
        elif what == "state" and v != q:
            w.problem(s, "wrong result", f"returns {show(v)}, the state is {show(q)}")
        elif what in ("is_final", "is_state_final"):
            verdict(E, w, s, v, q if what == "is_final" else ("s", ST, "given"))
    report(ck, w, E, prog, key, name, exits)


# ---- the table ----------------------------------------------------------------------------------

# ranges of each equivalence class
MAPS = [[], [(2, 4, 0)], [(0, 0, 0), (1, 9, 1), (255, 255, 0)], [(3, 3, 1), (7, 20, 0), (21, 21, 1)]]


def table(prog, n, ranges, st):
    """a table whose entries are any numbers"""
    fs = prog.adts[TABLE]["variants"][0]["fields"]
    m = max([i for _, _, i in ranges], default=-1) + 1
    entries = tuple(("s", ST, f"entry{e}.{i}") for e in range(m) for i in range(n))
    for i, e in enumerate(entries):
        st.mem[("g", f"e{i}")] = e
    tags = ("seq", "map", tuple(tuple_(i, ("s", "Tag", i)) for i in range(0, n, 2)))
    smap = ("seq", "bmap", tuple(tuple_(r, tuple_(l, i)) for l, r, i in ranges))
    v = []
    ints = 0
    for name, t in fs:
        if maps.kind_of_type(t) == "map":
            v.append(smap if t[1].endswith("BTreeMap") else tags)
        elif t == ("int", "usize"):
            if name not in ("init_id", "num_states"):
                raise Undecided(f"field {name} of {TABLE}")
            v.append(0 if name == "init_id" else n)
        elif t[0] == "adt" and t[1].endswith("Box"):
            v.append(("box", ("seq", "slice", entries)))
        elif t[0] == "adt" and t[1].endswith("Vec"):
            v.append(("seq", "vec", entries))
        else:
            raise Undecided(f"field {name} of {TABLE}")
    return ("agg", TABLE, 0, tuple(v))


def h_range(E, st, c):
    """entries of an ordered map whose keys lie in a range"""
    v = maps.container(E, st, c.args[0])
    if v is None or v[1] != "bmap":
        return NotImplemented
    r = c.args[1]
    if not (r[0] == "agg" and r[1].split("::")[-1] in ("RangeFrom", "RangeFull", "Range", "RangeInclusive", "RangeTo", "RangeToInclusive")):
        raise Undecided("range " + show(r))
    kind = r[1].split("::")[-1]
    lo = E.deref(st, r[3][0]) if kind in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = E.deref(st, r[3][1 if lo is not None else 0]) if kind not in ("RangeFrom", "RangeFull") else None
    out = []
    for e in v[2]:
        k = e[3][0]
        if lo is not None and not E.decide(st, E.cmp(st, "le", lo, k)):
            continue
        if hi is not None and not E.decide(st, E.cmp(st, "lt" if kind in ("Range", "RangeTo") else "le", k, hi)):
            continue
        out.append(tuple_(("vref", k), ("vref", e[3][1])))
    return ("agg", ITER, 0, (("seq", "slice", tuple(out)), 0))


@confirmed
def lookup(ck, prog, key, i, n):
    ranges = MAPS[i]
    name = f"StateTransTable::next_state, {n} states, symbols {ranges}"
    st = State()
    x = ("s", "int:u8", fresh_id())
    q = ("s", ST, fresh_id())
    st.mem[("g", "x")], st.mem[("g", "q")] = x, q
    t = table(prog, n, ranges, st)
    hooks = maps.hooks()
    hooks["std::collections::BTreeMap::range"] = h_range
    w = Walk(prog, "symbols")
    w.hooks = lambda: hooks
    E, exits = run(prog, w, key, st, [("vref", t), q, ("vref", x)])
    for s, v in exits:
        x1, q1 = s.mem[("g", "x")], s.mem[("g", "q")]
        qs = E.set_of(s, q1)
        for l, r, c in ranges + [(None, None, None)]:
            dom = ((l, r),) if l is not None else dom_minus(((0, 255),), tuple(sorted((a, b) for a, b, _ in ranges)))
            if not dom_inter(E.set_of(s, x1), dom):
                continue
            for k in range(n):
                if not dom_inter(qs, ((k, k),)):
                    continue
                e = s.mem[("g", f"e{c * n + k}")] if l is not None else None
                bad = judge_lookup(E, s, v, e, n)
                if bad:
                    w.problem(s, bad[0], f"{bad[1]} for state {k} and symbols {dom}")
            if dom_minus(qs, ((0, n - 1),)) and v != NONE:
                w.problem(s, "invalid state", f"returns {show(v)} for a state beyond the {n} there are")
    report(ck, w, E, prog, key, name, exits)


def judge_lookup(E, s, v, e, n):
    if e is None:
        return ("accepts an unmapped symbol", f"returns {show(v)}") if v != NONE else None
    valid = E.truth(s, E.cmp(s, "lt", e, n))
    if v == NONE:
        return ("misses a transition", f"returns None though {show(e)} can be a state") if valid != 0 else None
    if valid != 1:
        return "invalid successor", f"returns {show(v)} though {show(e)} may be no state"
    got = v[3][0]
    if got != e and E.truth(s, E.cmp(s, "eq", got, e)) != 1:
        return "wrong successor", f"returns {show(got)}, expected {show(e)}"


@confirmed
def final(ck, prog, key):
    name = "StateTransTable::is_final"
    st = State()
    q = ("s", ST, fresh_id())
    st.mem[("g", "q")] = q
    t = table(prog, 5, [(1, 2, 0)], st)
    w = Walk(prog, "symbols")
    w.hooks = maps.hooks
    E, exits = run(prog, w, key, st, [("vref", t), q])
    for s, v in exits:
        qs = E.set_of(s, s.mem[("g", "q")])
        for k in range(7):
            if dom_inter(qs, ((k, k),)):
                want = ("s", "Tag", k) if k in (0, 2, 4) else None
                got = None if v == NONE else E.deref(s, v[3][0])
                if want != got:
                    w.problem(s, "wrong tag", f"returns {show(v)} for state {k}, expected {show(want) if want else None}")
    report(ck, w, E, prog, key, name, exits)


def main():
    ck = Check("C23",
               "every symbol is looked up once, in order, in the state reached so far, starting from the initial state; the "
               "verdict is that of the state reached; a lookup follows the entry of the symbol's class and the state, if valid",
               "Abstract interpretation of the matcher over an opaque table and unknown symbols, any number of them; and of the "
               "table's lookup over unknown entries, for every state number and symbol, on a few class layouts.")
    prog = program(crates=("laps_regex",))
    for key in sorted(prog.bodies):
        d = prog.defs.get(key)
        if d is None or prog.bodies[key].promoted is not None or "closure" in key:
            continue
        n, b = d["npath"], prog.bodies[key]
        ts = b.locals[:b.argc + 1]
        if n == RE + "::is_match":
            whole(ck, prog, key, "RegexMatcher::is_match", "symbols")
        elif n == RE + "::is_str_match":
            by = ("int", "u8") in (d["impl_self"] or ("", "", ()))[2] if d.get("impl_self") else None
            if by is None:
                raise Undecided("self type of is_str_match")
            whole(ck, prog, key, ("BytesMatcher" if by else "CharsMatcher") + "::is_str_match",
                  "bytes of a string" if by else "characters of a string")
        elif n == RE + "::is_accept":
            step(ck, prog, key, "RegexMatcher::is_accept")
        elif n in [RE + "::" + m for m in ("state", "is_final", "is_state_final", "reset", "new")]:
            simple(ck, prog, key, "RegexMatcher::" + n.split("::")[-1], n.split("::")[-1])
        elif n.endswith("::from") and b.argc == 1 and ts[1][0] == "adt" and ts[1][1] == RE and ts[0][0] == "adt" and ts[0][1] == TABLE:
            simple(ck, prog, key, "StateTransTable::from(matcher)", "into table")
        elif n == TABLE + "::next_state":
            for i in range(len(MAPS)):
                for k in (1, 2, 3):
                    lookup(ck, prog, key, i, k)
        elif n == TABLE + "::is_final":
            final(ck, prog, key)
    ck.floor("operations", 20)
    return ck.finish()
