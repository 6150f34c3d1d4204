"""The subset construction and minimisation over small transition systems left open.

The sets of automaton states an expression can be in are given names; where each goes on each
symbol is decided only when the code asks (the ghost table), so one exploration covers every
transition function over the given sets. The automaton built is compared with that table.
"""
from .common import *
from .values import *
from .engine import Engine, State
from .std import panic as std_panic
from . import maps, sync, mir

NEW = "laps_regex::dfa::DFA::new"
TAG = {1: 0, 2: 1}          # which states of the expression's automaton carry which tag
BASE = 50


class Counting(sync.Shared):
    """the shared counter of one thread, exactly"""

    def acquire(self, E, st, n, where):
        if ("held", n) in st.ghost:
            self.problem(st, "deadlock", f"acquires {n} while holding it at {where}")
            raise Infeasible()
        cell = ("g", "value:" + n)
        st.mem.setdefault(cell, self.least)
        st.ghost[("held", n)] = st.mem[cell]
        return cell

    def release(self, E, st, n, where=""):
        st.ghost.pop(("held", n), None)


def set_of(ids):
    return ("seq", "bset", tuple(ids))


def sym(i):
    return ("seq", "vec", (tuple_(2 * i, 2 * i),))


class System:
    def __init__(self, prog, sets, nsyms, par, backwards=False):
        self.prog, self.sets, self.n, self.par = prog, sets, nsyms, par
        self.backwards = backwards
        self.table = {}

    # -- the expression's automaton, opaque ------------------------------------------------------

    def opaque(self, E, st, v):
        try:
            v = E.deref(st, v)
        except Undecided:
            return False
        return isinstance(v, tuple) and v[:2] == ("s", "@nfa")

    def into_fa_tags(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        tags = ("seq", "map", tuple(tuple_(k, t) for k, t in TAG.items()))
        return tuple_(("s", "@nfa", "fa"), tags)

    def given(self, x):
        def f(E, st, c):
            return x if c.args and self.opaque(E, st, c.args[0]) else NotImplemented
        return f

    def builder(self, E, st, c):
        if self.opaque(E, st, c.args[0]):
            return ("s", "@nfa", "builder")
        return maps.h_conv(E, st, c)

    def epsilon(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        ids = E.deref(st, c.args[2])
        if ids[0] == "agg":
            ids = ("seq", "bset", ids[3])
        if ids[2] != (99,):
            raise Undecided("closure of " + show(ids))
        return set_of(self.sets[0])

    def closure(self, E, st, c):
        if not self.opaque(E, st, c.args[0]):
            return NotImplemented
        cur, s = E.deref(st, c.args[2]), E.deref(st, c.args[3])
        k = ("to", cur[2], repr(s))
        if k not in st.ghost:
            w = E.choice(st, "to", len(self.sets) + 1)
            st.ghost[k] = self.sets[w - 1] if w else ()
            st.note(f"from {show(cur)} the symbol {self.name(s)} leads to {{{', '.join(map(str, st.ghost[k]))}}}")
        return set_of(st.ghost[k])

    def name(self, s):
        return next((f"s{i}" for i in range(self.n) if sym(i) == s), show(s))

    def parallelism(self, E, st, c):
        w = E.choice(st, "cpus", 3)
        x = err(("s", "io", "noparallelism"))
        if w:
            n = ("s", "int:usize", "cpus")
            E.restrict(st, n, ((1, 1),) if w == 1 else ((2, 1 << 20),))
            x = ok(n)
        st.note(f"available parallelism: {show(x)}")
        return x

    # -- library ---------------------------------------------------------------------------------

    def sort(self, E, st, c):
        from .std import place_of
        loc, v = place_of(E, st, c.args[0])
        if v[0] == "box":
            return NotImplemented
        E.wr(st, loc, ("seq", v[1], tuple(sorted(v[2], key=lambda x: maps.rank(E, st, x)))))
        return UNIT

    def from_elem(self, E, st, c):
        x, n = c.args
        if not isinstance(n, int):
            raise Undecided("length of a repeated vector")
        return ("seq", "vec", (x,) * n)

    def par_iter(self, E, st, c):
        h = E.hooks["std::iter::IntoIterator::into_iter"]
        r = h(E, st, c)
        if r is NotImplemented:
            from . import std
            r = std.into_iter(E, st, c)
        return r

    def into_vec(self, E, st, c):
        return E.call_model(st, "model__refill_vec", [c.args[1], c.args[0]], c.dest, c.target)

    def model(self, name):
        return lambda E, st, c: E.call_model(st, name, list(c.args), c.dest, c.target)

    def hooks(self, w):
        h = maps.hooks()
        h.update(w.hooks())
        F = "laps_regex::fa::"
        h["laps_regex::nfa::NFA::into_fa_tags"] = self.into_fa_tags
        h[F + "FiniteAutomaton::init_id"] = self.given(99)
        h["std::convert::From::from"] = self.builder
        h["std::convert::Into::into"] = self.builder
        h[F + "ClosureBuilder::from"] = self.builder
        h[F + "ClosureBuilder::epsilon_closure"] = self.epsilon
        h[F + "ClosureBuilder::state_closure"] = self.closure
        syms = tuple(sym(i) for i in range(self.n))
        h[F + "ClosureBuilder::symbol_set"] = self.given(("seq", "set", syms[::-1] if self.backwards else syms))
        h["std::thread::available_parallelism"] = self.parallelism
        for n in ("sort", "sort_unstable"):
            h["std::slice::" + n] = self.sort
        h["std::vec::from_elem"] = self.from_elem
        P = "rayon::iter::"
        for n in ("IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut",
                  "IntoParallelIterator::into_par_iter"):
            h[P + n] = self.par_iter
        for t in ("ParallelIterator", "IndexedParallelIterator"):
            for n in ("zip", "map", "filter", "filter_map", "enumerate", "for_each", "rev", "chain"):
                h[P + t + "::" + n] = self.model("std__iter__Iterator__" + n)
            h[P + t + "::collect"] = self.collect
            h[P + t + "::collect_into_vec"] = self.into_vec
        h["keep order"] = lambda E, st, n: tuple(reversed(range(n))) if self.backwards else tuple(range(n))
        return h

    def collect(self, E, st, c):
        r = maps.h_collect(E, st, c)
        if r is NotImplemented:
            from . import std
            r = std.collect(E, st, c)
        return r

    # -- judging -----------------------------------------------------------------------------------

    def want(self, st):
        """the automaton the table describes: (initial, moves, tags)"""
        move = {(k[1], k[2]): v for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "to"}
        return move

    def tag(self, s):
        ts = [TAG[i] for i in s if i in TAG]
        return min(ts) if ts else None

    def judge(self, E, st, v):
        """pairs of states of the built automaton and of the table that a text can lead to"""
        fa, tags = self.parts(v)
        pos, _ = layout(self.prog)
        states, finals, init = fa[3][pos["states"]], fa[3][pos["finals"]], fa[3][pos["init"]]
        outs = {}
        for e in states[2]:
            k, x = e[3]
            while x[0] == "agg":
                x = x[3][0]
            outs[k] = x[2]
        tag_of = {e[3][0]: e[3][1] for e in tags[2]}
        move = self.want(st)
        todo, seen = [(init, tuple(self.sets[0]), "")], set()
        while todo:
            a, b, text = todo.pop()
            if (a, b) in seen:
                continue
            seen.add((a, b))
            text = text or "the empty text"
            if a not in outs:
                return "a state that does not exist", f"{text} leads to state {a}, which does not exist"
            t = self.tag(b)
            if (a in finals[2]) != (t is not None):
                return "accepts another language", f"{text} is {'accepted' if a in finals[2] else 'rejected'}, it leads to the " \
                    f"states {b}"
            if tag_of.get(a) != t:
                return "selects another tag", f"{text} selects {tag_of.get(a)}, the states {b} select {t}"
            for i in range(self.n):
                s = sym(i)
                go = [e[3][1] for e in outs[a] if e[3][0] == s]
                nxt = move.get((b, repr(s)))
                if nxt is None:
                    return "a move never asked for", f"after {text} the symbol s{i} was never followed"
                if bool(nxt) != bool(go):
                    return "accepts another language", f"after {text} the symbol s{i} {'moves' if go else 'does not move'}"
                if len(set(go)) > 1:
                    return "not deterministic", f"after {text} the symbol s{i} leads to {go}"
                if go:
                    todo.append((go[0], nxt, ("" if text == "the empty text" else text + " ") + f"s{i}"))
        return None

    def parts(self, v):
        if not (v[0] == "agg" and v[1] == "laps_regex::dfa::DFA"):
            raise Undecided("result " + show(v))
        fa = next(x for x in v[3] if x[0] == "agg" and x[1] == FA)
        tags = next(x for x in v[3] if maps.is_map(x))
        return fa, tags


FA = "laps_regex::fa::FiniteAutomaton"


def layout(prog):
    from .checks.c22 import layout as l
    return l(prog)


def explore(prog, sets, nsyms, par, backwards=False, max_steps=None):
    """(problems, engine, paths) of DFA::new over every transition function"""
    keys = [k for k, d in prog.defs.items() if d["npath"] == NEW and k in prog.bodies]
    if len(keys) != 1:
        raise Undecided(f"{NEW}: {len(keys)} bodies")
    S = System(prog, sets, nsyms, par, backwards)
    w = Counting(BASE)
    E = Engine(prog, S.hooks(w))
    E.fold_after = 1 << 30
    E.cut_after = 1 << 30
    if max_steps:
        E.max_steps = max_steps
    st = State()
    flag = NONE if par is None else some(int(par))
    exits, panics, problems = [], [], []
    E.start(keys[0], [("s", "@nfa", "nfa"), flag], {}, st)
    E.run(st, lambda E, s, v: exits.append((s, v)), lambda E, s, m: panics.append((s, m)))
    for s, v in exits:
        try:
            p = S.judge(E, s, v)
        except Undecided as e:
            E.undecided.append((str(e), "result"))
            continue
        if p:
            problems.append((p[0], p[1], s.trace_list()))
    for s, m in panics:
        problems.append(("panics", "panics: " + m, s.trace_list()))
    problems += w.problems
    if not exits and not E.undecided:
        problems.append(("never returns", "no path returns", []))
    return problems, E, exits, keys[0]
