"""Path-sensitive abstract interpretation of MIR.

States carry symbolic values and interval / predicate / order facts.  Loops
reach a fixpoint because loop heads fold runs of sequence elements that are
always adjacent into summary segments and generalise counters (see fold()).
Nothing is executed and no solver is called: every decision is a lookup in the
abstract state, and what cannot be decided there forks into both cases.
"""
import re
import time

from . import mir
from .values import *

STD = {}          # npath -> builtin(E, st, c)
CALL = object()   # builtin pushed a frame (or changed control) itself


# exploring without merging, for confirming a reported violation
MODE = {"exact": 0, "until": None}
UNSAFE_CALLS = set()        # (body, line, operation) of every unsafe call explored


def builtin(*names):
    def deco(f):
        for n in names:
            STD[n] = f
        return f
    return deco


class Frame:
    __slots__ = ("body", "bb", "si", "substs", "dest", "ret", "post")

    def __init__(self, body, substs, dest, ret, post=None):
        self.body = body
        self.bb = 0
        self.si = 0
        self.substs = substs
        self.dest = dest
        self.ret = ret
        self.post = post      # optional tuple (name, ...) run on the returned value

    def copy(self):
        f = Frame(self.body, self.substs, self.dest, self.ret, self.post)
        f.bb = self.bb
        f.si = self.si
        return f


class State:
    __slots__ = ("frames", "mem", "dom", "pt", "le", "ghost", "aux", "trace", "hist", "steps", "picks", "node")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.dom = {}
        self.pt = {}
        self.le = frozenset()
        self.ghost = {}
        self.aux = None
        self.trace = None
        self.hist = {}
        self.steps = 0
        self.picks = {}
        self.node = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.dom = dict(self.dom)
        s.pt = dict(self.pt)
        s.le = self.le
        s.ghost = dict(self.ghost)
        s.aux = self.aux
        s.trace = self.trace
        s.hist = self.hist
        s.steps = self.steps
        s.picks = dict(self.picks)
        s.node = self.node
        return s

    def note(self, text):
        self.trace = (self.trace, text)

    def trace_list(self, n=60):
        out = []
        t = self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Call:
    __slots__ = ("key", "npath", "targs", "args", "dest", "target", "line", "frame", "resolved", "fnty")


# type of a label, for symbols that may be expanded
LABEL_TY = {}


def ty_label(t):
    k = t[0]
    if k in ("char", "bool"):
        return k
    if k == "int":
        return "int:" + t[1]
    l = mir.ty_str(t) if k != "adt" else _adt_label(t)
    LABEL_TY.setdefault(l, t)
    return l


def _adt_label(t):
    a = [ty_label(x) for x in t[2] if isinstance(x, tuple)]
    return t[1] + ("<" + ",".join(a) + ">" if a else "")


SEQ_ADTS = {
    "alloc::vec::Vec": "vec",
    "alloc::collections::vec_deque::VecDeque": "deque",
    "alloc::string::String": "string",
}


def _frozen(t):
    """plain data: what a static of this type holds never changes"""
    if t[0] in ("int", "char", "bool", "str", "float"):
        return True
    if t[0] in ("array", "slice", "ref"):
        return not (t[0] == "ref" and t[2]) and _frozen(t[1])
    return t[0] == "tuple" and all(_frozen(x) for x in t[1])


class Engine:
    def __init__(self, prog, hooks=None, max_states=20000, max_steps=400000):
        self.prog = prog
        self.hooks = hooks or {}
        self.max_states = max_states
        self.max_steps = max_steps
        self.exits = []
        self.undecided = []
        self.misuse = []            # unchecked operations whose requirement fails: (body, line, operation, why, path)
        self.on_exit = None
        self.on_panic = None
        self.on_assert = None
        self.strict = False         # explore failing overflow and bounds checks instead of assuming they pass
        self.keep_order = False     # widening keeps which forgotten integers are in order
        self.counts_fit = False     # ... except that 64-bit sums of counts are assumed to fit
        self.seen = {}
        self.edges = {}         # loop head state -> loop head states reached from it
        self.ends = set()       # loop head states from which a path ends (in any way)
        self.paths = [None]     # how each was reached first
        self.nstates = 0
        self.nsteps = 0
        self.bodies_used = set()
        self.files_used = {}
        self.value_hooks = []   # f(E, st, c) tried before everything
        self.opaque_params = True
        self.models = {}
        for k in prog.bodies:
            if k.startswith("models::"):
                self.models[k[len("models::"):]] = k
        self.expand_hook = None
        self.assoc_hook = None
        self.max_depth = 40
        self.havoc = None           # what to do about outside calls without a model
        self.max_visits = 60        # loop visits after which the loop counts as not stabilising
        self.fold_after = 0         # loop visits explored exactly before merging
        self.cut_after = None       # loop visits after which a path is abandoned
        self.widen_after = 8
        self.partition = None       # f(state): visits are counted apart for each value of it
        self.blur_after = None      # loop visits after which computed sequence contents are forgotten
        if MODE["exact"]:
            self.fold_after = self.cut_after = MODE["exact"]

    # ---- fresh values ------------------------------------------------------------------------

    # labels of symbols that keep their identity when only one value is left
    keep_names = ()
    distinct = ()       # labels whose unknown values are different if their names are

    def fresh(self, st, t, name=None):
        """an unknown value of type t"""
        k = t[0]
        if k == "ref" or k == "ptr":
            if t[2]:
                cell = ("a", fresh_id())
                st.mem[cell] = self.fresh(st, t[1], name)
                return ("mref", cell, ())
            return ("vref", self.fresh(st, t[1], name))
        if k == "tuple":
            return ("agg", "tuple", 0, tuple(self.fresh(st, x, name) for x in t[1]))
        if k == "adt":
            if t[1] in SEQ_ADTS:
                el = ("char",) if SEQ_ADTS[t[1]] == "string" else t[2][0]
                return ("seq", SEQ_ADTS[t[1]], (("seg", ty_label(el), fresh_id(), False),))
            if t[1] == "alloc::boxed::Box":
                return ("box", self.fresh(st, t[2][0], name))
        if k == "str":
            return ("seq", "str", (("seg", "char", fresh_id(), False),))
        if k == "slice":
            return ("seq", "slice", (("seg", ty_label(t[1]), fresh_id(), False),))
        return ("s", ty_label(t), fresh_id())

    def fresh_label(self, st, label):
        if label in ("char", "bool") or label.startswith("int:"):
            return ("s", label, fresh_id())
        t = LABEL_TY.get(label)
        if t is None:
            return ("s", label, fresh_id())
        return self.fresh(st, t)

    # ---- substitution / facts ------------------------------------------------------------------

    def apply_subst(self, st, m):
        s = Subst(m)
        pend_dom = []
        for k in list(st.mem):
            v = st.mem[k]
            n = s(v)
            if n is not v:
                st.mem[k] = n
        for k in list(st.ghost):
            v = st.ghost[k]
            n = s(v)
            if n is not v:
                st.ghost[k] = n
        nd = {}
        for t, d in st.dom.items():
            if t in m:
                r = m[t]
                if isinstance(t, tuple) and t[0] == "seg":
                    for x in r[1]:
                        x = x[1] if isinstance(x, tuple) and x and x[0] == "rev" else x
                        pend_dom.append((x, d))
                else:
                    pend_dom.append((r, d))
                continue
            nt = s(t)
            if nt is t:
                nd[t] = dom_inter(nd[t], d) if t in nd else d
            else:
                pend_dom.append((nt, d))
        st.dom = nd
        npt = {}
        segs = {t: r for t, r in m.items() if t[0] == "seg"}
        for t, b in st.pt.items():
            hit = None
            for a in segs:
                if a in atoms(t) and _elementwise(t, a):
                    hit = a
            if hit is not None:
                for x in segs[hit][1]:
                    x = x[1] if isinstance(x, tuple) and x and x[0] == "rev" else x
                    self._pt_add(npt, s(_replace(t, hit, x)), b)
                continue
            nt = s(t)
            self._pt_add(npt, nt, b)
        st.pt = npt
        nle = []
        changed = []
        for f in st.le:
            g = s(f)
            if isinstance(g, int):
                if g > 0:
                    raise Infeasible()
                continue
            if g == f:
                nle.append(g)
            else:
                changed.append(g)
        st.le = frozenset(nle)
        for g in changed:
            self._assume_le(st, g)
        for t, d in pend_dom:
            self.restrict(st, t, d)
        for t in [t for t in st.pt if True]:
            self._pt_check(st, t)

    def _pt_add(self, d, t, b):
        if isinstance(t, int):
            if t != b:
                raise Infeasible()
            return
        if d.get(t, b) != b:
            raise Infeasible()
        d[t] = b

    def _pt_check(self, st, t):
        r = self._eval_term(st, t)
        if r is not None and r != st.pt[t]:
            raise Infeasible()

    def _eval_term(self, st, t):
        """simple truth of eq/lt terms that became constant"""
        if t[0] == "t" and t[1] in ("eq", "lt", "le") and all(isinstance(a, int) for a in t[2]):
            a, b = t[2]
            return int({"eq": a == b, "lt": a < b, "le": a <= b}[t[1]])
        return None

    def restrict(self, st, t, d):
        """intersect the domain of t"""
        if isinstance(t, int):
            if not any(l <= t <= r for l, r in d):
                raise Infeasible()
            return
        if not isinstance(t, tuple):
            return
        if t[0] == "lin":
            c, parts = t[1], t[2]
            if len(parts) == 1 and parts[0][1] == 1:
                self.restrict(st, parts[0][0], dom_shift(d, -c))
                return
            if len(parts) == 1 and parts[0][1] == -1:
                self.restrict(st, parts[0][0], dom_neg(dom_shift(d, -c)))
                return
            cur = self.range_of(st, t)
            n = dom_inter((cur,), d)
            if not n:
                raise Infeasible()
            return
        cur = self.dom_of(st, t)
        n = dom_inter(cur, d)
        if not n:
            raise Infeasible()
        if n == cur:
            return
        if len(n) == 1 and n[0][0] == n[0][1] and t[0] in ("s",) and t[1] not in self.keep_names:
            st.dom.pop(t, None)
            self.apply_subst(st, {t: n[0][0]})
            return
        if t[0] == "t" and t[1] == "len" and n[0][0] >= 1 and not t[2][0][3]:
            seg = t[2][0]
            ns = ("seg", seg[1], fresh_id(), True)
            st.dom.pop(t, None)
            self.apply_subst(st, {seg: ("splice", (ns,))})
            self.restrict(st, seg_len(ns), n)
            return
        if t[0] == "t" and t[1] == "len" and n == ((0, 0),):
            st.dom.pop(t, None)
            self.apply_subst(st, {t[2][0]: ("splice", ())})
            return
        st.dom[t] = n

    def dom_of(self, st, t):
        if isinstance(t, int):
            return ((t, t),)
        d = st.dom.get(t)
        if t[0] == "lin":
            return (self.range_of(st, t),)
        if t[0] == "t":
            if t[1] == "len":
                lo = 1 if t[2][0][3] else 0
                b = ((lo, 2 ** 63 - 1),)
                return dom_inter(b, d) if d else b
            if t[1] in ("eq", "lt", "le", "not", "and", "or") or t[3] == "bool":
                b = self.truth(st, t)
                return ((0, 1),) if b is None else ((b, b),)
        if d is not None:
            return d
        return default_dom(label_of(t))

    def plain_range(self, st, v):
        """interval of a linear term from the domains alone"""
        lo, parts = lin_parts(v)
        hi = lo
        for t, n in parts.items():
            d = self.dom_of(st, t)
            a, b = (d[0][0], d[-1][1]) if n > 0 else (d[-1][1], d[0][0])
            lo += a * n
            hi += b * n
        return (lo, hi)

    def set_of(self, st, v):
        """the values v can have, as precisely as its single term tells"""
        c, parts = lin_parts(v)
        if len(parts) == 1:
            (t, k), = parts.items()
            if k in (1, -1):
                d = self.dom_of(st, t)
                return dom_shift(dom_neg(d) if k < 0 else d, c)
        return (self.range_of(st, v),)

    def range_of(self, st, v):
        if isinstance(v, int):
            return (v, v)
        if v[0] == "lin":
            lo = hi = v[1]
            for t, n in v[2]:
                d = self.dom_of(st, t)
                a, b = d[0][0], d[-1][1]
                if n > 0:
                    lo += a * n
                    hi += b * n
                else:
                    lo += b * n
                    hi += a * n
            # improve with order facts
            mine = dict(v[2])
            for f in st.le:
                # f <= 0, so v <= v - n*f and v >= v + n*f
                for n in {abs(mine[t]) // abs(k) for t, k in lin_parts(f)[1].items()
                          if t in mine and abs(mine[t]) % abs(k) == 0}:
                    r = self.plain_range(st, lin_add(v, f, -n))
                    hi = min(hi, r[1])
                    r = self.plain_range(st, lin_add(v, f, n))
                    lo = max(lo, r[0])
            return (lo, hi)
        d = self.dom_of(st, v)
        lo, hi = d[0][0], d[-1][1]
        for f in st.le:
            k = lin_add(v, f, -1)
            if isinstance(k, int) and k < hi:
                hi = k
            k = lin_add(v, f, 1)
            if isinstance(k, int) and k > lo:
                lo = k
        return (lo, hi)

    def cmp(self, st, op, a, b):
        """int 0/1 or a boolean term"""
        if op == "ne":
            return self.negate(st, self.cmp(st, "eq", a, b))
        if op == "gt":
            return self.cmp(st, "lt", b, a)
        if op == "ge":
            return self.cmp(st, "le", b, a)
        if a == b:
            return 1 if op in ("eq", "le") else 0
        if isinstance(a, int) and isinstance(b, int):
            return int({"eq": a == b, "lt": a < b, "le": a <= b}[op])
        num = self._numeric(a) and self._numeric(b)
        if op == "eq" and label_of(a) == "bool" and isinstance(b, int):
            return a if b else self.negate(st, a)
        if op == "eq" and label_of(b) == "bool" and isinstance(a, int):
            return b if a else self.negate(st, b)
        if op == "eq":
            if isinstance(b, tuple) and (isinstance(a, int) or repr(b) < repr(a)):
                a, b = b, a
            t = ("t", "eq", (a, b), "bool")
        else:
            t = ("t", op, (a, b), "bool")
        if num:
            r = self.truth(st, t)
            if r is not None:
                return r
        return t

    def _numeric(self, v):
        if isinstance(v, int):
            return True
        if v[0] == "lin":
            return True
        l = label_of(v)
        return l is not None and (l in ("char", "bool") or l.startswith("int:"))

    def negate(self, st, t):
        if isinstance(t, int):
            return 1 - t
        if t[0] == "t" and t[1] == "not":
            return t[2][0]
        if t[0] == "t" and t[1] == "lt":
            return ("t", "le", (t[2][1], t[2][0]), "bool")
        if t[0] == "t" and t[1] == "le":
            return ("t", "lt", (t[2][1], t[2][0]), "bool")
        return ("t", "not", (t,), "bool")

    def truth(self, st, t):
        if isinstance(t, int):
            return 1 if t else 0
        if t in st.pt:
            return st.pt[t]
        if t[0] == "s":
            d = st.dom.get(t)
            if d and len(d) == 1 and d[0][0] == d[0][1]:
                return d[0][0]
            return None
        if t[0] == "t":
            n = t[1]
            if n == "not":
                r = self.truth(st, t[2][0])
                return None if r is None else 1 - r
            if n in ("and", "or"):
                x, y = (self.truth(st, z) for z in t[2])
                if n == "and":
                    if x == 0 or y == 0:
                        return 0
                    if x == 1 and y == 1:
                        return 1
                else:
                    if x == 1 or y == 1:
                        return 1
                    if x == 0 and y == 0:
                        return 0
                return None
            if n == "eq" and t[2][0] == t[2][1]:
                return 1
            if n in ("eq", "lt", "le") and self._numeric(t[2][0]) and self._numeric(t[2][1]):
                a, b = t[2]
                if a == b:
                    return int(n != "lt")
                if not isinstance(a, int) and not isinstance(b, int) or True:
                    d = lin_add(a, b, -1)
                    lo, hi = self.range_of(st, d)
                    if n == "eq":
                        if lo > 0 or hi < 0:
                            return 0
                        if lo == hi == 0:
                            return 1
                        da = self.dom_of(st, a)
                        db = self.dom_of(st, b)
                        if not dom_inter(da, db):
                            return 0
                        if st.pt.get(("t", "eq", (b, a), "bool")) is not None:
                            return st.pt[("t", "eq", (b, a), "bool")]
                    elif n == "lt":
                        if hi < 0:
                            return 1
                        if lo >= 0:
                            return 0
                    else:
                        if hi <= 0:
                            return 1
                        if lo > 0:
                            return 0
        return None

    def assume(self, st, t, b):
        """add the fact t == b; may raise Infeasible"""
        if isinstance(t, int):
            if t != b:
                raise Infeasible()
            return
        cur = self.truth(st, t)
        if cur is not None:
            if cur != b:
                raise Infeasible()
            return
        if t[0] == "s":
            self.apply_subst(st, {t: b})
            return
        if t[0] == "t":
            n = t[1]
            if n == "not":
                self.assume(st, t[2][0], 1 - b)
                return
            if n == "and" and b == 1 or n == "or" and b == 0:
                self.assume(st, t[2][0], b)
                self.assume(st, t[2][1], b)
                return
            if n in ("eq", "lt", "le") and self._numeric(t[2][0]) and self._numeric(t[2][1]):
                x, y = t[2]
                if n == "eq" and b == 1:
                    self.equate(st, x, y)
                    return
                if n == "eq":
                    if isinstance(y, int) and not isinstance(x, int) and x[0] != "lin":
                        self.restrict(st, x, dom_minus(self.dom_of(st, x), ((y, y),)))
                        return
                    d = lin_add(x, y, -1)
                    lo, hi = self.range_of(st, d)
                    if lo == 0:
                        self._assume_le(st, lin_add(1, d, -1))     # 1 - d <= 0
                        return
                    if hi == 0:
                        self._assume_le(st, lin_add(d, 1))
                        return
                    st.pt[t] = b
                    return
                d = lin_add(x, y, -1)
                if n == "lt":
                    d = lin_add(d, 1) if b else lin_scale(d, -1)
                else:
                    d = d if b else lin_add(1, d, -1)
                self._assume_le(st, d)
                return
        st.pt[t] = b

    def _assume_le(self, st, d):
        """d <= 0"""
        lo, hi = self.range_of(st, d)
        if lo > 0:
            raise Infeasible()
        if hi <= 0:
            return
        c, parts = lin_parts(d)
        if len(parts) == 1:
            (t, k), = parts.items()
            if k > 0:
                self.restrict(st, t, ((-INF, (-c) // k),))
            else:
                q = -((-c) // (-k)) if False else -(-c // -k)
                # k<0: t >= c/(-k) rounded up
                q = -((-c) // (-k))
                self.restrict(st, t, ((q, INF),))
            return
        neg = lin_scale(d, -1)
        if lo == 0 or neg in st.le:
            # d <= 0 and d >= 0
            self._eq_zero(st, d)
            return
        st.le = st.le | {d}

    def _eq_zero(self, st, d):
        c, parts = lin_parts(d)
        for t, k in sorted(parts.items(), key=lambda kv: (kv[0][0] != "s", repr(kv[0]))):
            if abs(k) == 1 and t[0] == "s":
                rest = lin_make(c, {x: n for x, n in parts.items() if x != t})
                val = lin_scale(rest, -k)
                self.apply_subst(st, {t: val})
                return
        st.le = st.le | {d, lin_scale(d, -1)}

    def equate(self, st, x, y):
        if isinstance(x, int):
            x, y = y, x
        if isinstance(x, int):
            if x != y:
                raise Infeasible()
            return
        if isinstance(y, int) and x[0] != "lin":
            self.restrict(st, x, ((y, y),))
            if x[0] == "t" and x[1] != "len":
                st.pt.setdefault(("t", "eq", (x, y), "bool"), 1)
            return
        d = lin_add(x, y, -1)
        lo, hi = self.range_of(st, d)
        if lo > 0 or hi < 0:
            raise Infeasible()
        self._eq_zero(st, d)
        c, parts = lin_parts(d)
        if not any(abs(k) == 1 and t[0] == "s" for t, k in parts.items()):
            st.pt[("t", "eq", (x, y), "bool")] = 1

    def decide(self, st, t):
        """0/1, or fork on the truth of t"""
        r = self.truth(st, t)
        if r is None:
            if t[0] == "t" and t[1] in ("and", "or"):
                stop = 0 if t[1] == "and" else 1
                if self.decide(st, t[2][0]) == stop:
                    return stop
                return self.decide(st, t[2][1])
            if t[0] == "t" and t[1] == "not":
                return 1 - self.decide(st, t[2][0])
            raise Fork([[("is", t, 1)], [("is", t, 0)]])
        return r

    # ---- memory -----------------------------------------------------------------------------

    def loc(self, st, place, depth=None):
        """('place', cell, path) or ('value', v)"""
        if depth is None:
            depth = len(st.frames) - 1
        cur = ("place", (depth, place[0]), ())
        for e in place[1:]:
            cur = self._proj(st, cur, e, depth)
        return cur

    def _proj(self, st, cur, e, depth):
        if e == "*":
            v = self.rd(st, cur)
            if v[0] == "mref":
                return ("place", v[1], v[2])
            if v[0] == "vref":
                return ("value", v[1])
            if v[0] == "box":
                if cur[0] == "place":
                    return ("place", cur[1], cur[2] + ("box",))
                return ("value", v[1])
            if v[0] == "s":
                t = LABEL_TY.get(v[1])
                if t and t[0] in ("ref", "ptr"):
                    nv = self.fresh(st, ("ref", t[1], t[2]))
                    raise Fork([[("sub", {v: nv}), ("mem", nv, st.mem)]])
            raise Undecided(f"deref of {show(v)}")
        k = e[0]
        if k == "f":
            if cur[0] == "place" and cur[2] and cur[2][-1] == "boxp":
                return cur
            v = self.rd(st, cur)
            if v and v[0] == "mref" and v[2][-1:] == ("box",):
                return ("value", v)
            if v and v[0] == "box":
                if cur[0] == "place":
                    return ("place", cur[1], cur[2] + ("boxp",))
                return ("value", ("vref", v[1]) if v[0] == "box" else v)
            if v and v[0] == "vref":
                return ("value", v)     # a box reached through a shared reference: its pointer
            if v and v[0] == "uninit":
                return ("place", cur[1], cur[2] + (e[1],)) if cur[0] == "place" else cur
            v = self.need_agg(st, v)
            if cur[0] == "place":
                return ("place", cur[1], cur[2] + (e[1],))
            if e[1] >= len(v[3]):
                raise Undecided(f"field {e[1]} of {show(v)}")
            return ("value", v[3][e[1]])
        if k == "d":
            v = self.rd(st, cur)
            if v and v[0] == "s":
                self.discr(st, v)
                v = self.rd(st, cur)
            if v[0] == "agg" and v[2] != e[1]:
                raise Infeasible()
            return cur
        if k in ("i", "ci", "sub"):
            v = self.rd(st, cur)
            if k == "i":
                idx = st.mem.get((depth, e[1]))
                n = None
            elif k == "ci":
                off, _, from_end = e[1], e[2], e[3]
                ln = items_len(v[2])
                idx = lin_add(ln, off, -1) if from_end else off
            else:
                raise Undecided("subslice pattern")
            if v[0] in ("vref",):
                v = v[1]
            if v[0] == "tbl":
                return ("value", self.index_table(st, v, idx))
            if v[0] != "seq":
                raise Undecided(f"index into {show(v)}")
            k2 = self.seq_pos(st, v, idx)
            if cur[0] == "place":
                return ("place", cur[1], cur[2] + (("i", k2),))
            return ("value", v[2][k2])
        raise Undecided(f"projection {e}")

    def index_table(self, st, v, idx):
        raise Undecided("table index")

    def seq_pos(self, st, v, idx):
        """python index of the item at symbolic position idx; forks segments open"""
        items = v[2]
        pos = 0
        for n, it in enumerate(items):
            isseg = isinstance(it, tuple) and it and it[0] in ("seg", "rev")
            if not isseg:
                d = self.truth(st, self.cmp(st, "eq", pos, idx))
                if d == 1:
                    return n
                if d is None:
                    raise Fork([[("is", self.cmp(st, "eq", pos, idx), 1)],
                                [("is", self.cmp(st, "eq", pos, idx), 0)]])
                pos = lin_add(pos, 1)
            else:
                seg = it if it[0] == "seg" else it[1]
                end = lin_add(pos, seg_len(seg))
                inside = self.cmp(st, "lt", idx, end)
                d = self.truth(st, inside)
                if d is None:
                    raise Fork([[("is", inside, 1)], [("is", inside, 0)]])
                if d == 1:
                    # idx within this segment: first or last element?
                    first = self.cmp(st, "eq", idx, pos)
                    if self.truth(st, first) == 1:
                        raise Fork(self.open_seg(st, it, "front"))
                    last = self.cmp(st, "eq", idx, lin_add(end, -1))
                    if self.truth(st, last) == 1:
                        raise Fork(self.open_seg(st, it, "back"))
                    raise Undecided("index in the middle of a summary segment")
                pos = end
        raise Infeasible()

    def open_seg(self, st, it, side):
        """alternatives that expose the first/last element of a segment"""
        rev = it[0] == "rev"
        seg = it[1] if rev else it
        if rev:
            side = "back" if side == "front" else "front"
        alts = []
        if not seg[3]:
            alts.append([("sub", {seg: ("splice", ())})])
        x = self.fresh_label(st, seg[1])
        rest = ("seg", seg[1], fresh_id(), False)
        items = (x, rest) if side == "front" else (rest, x)
        alts.append([("mem", x, st.mem), ("sub", {seg: ("splice", items)})])
        return alts

    def rd(self, st, loc):
        if loc[0] == "value":
            return loc[1]
        _, cell, path = loc
        v = st.mem.get(cell)
        if v is None:
            raise Undecided(f"read of unset {cell}")
        return self.get_path(st, v, path, cell)

    def get_path(self, st, v, path, cell=None):
        for n, p in enumerate(path):
            if v and v[0] == "uninit":
                return v
            if p == "boxp":
                if n == len(path) - 1:
                    return ("mref", cell, path[:-1] + ("box",))
                continue
            if p == "box":
                if v[0] != "box":
                    raise Undecided(f"box content of {show(v)}")
                v = v[1]
            elif isinstance(p, tuple):
                v = v[2][p[1]]
            else:
                v = self.need_agg(st, v)
                if p >= len(v[3]):
                    raise Undecided(f"field {p} of {show(v)}")
                v = v[3][p]
        return v

    def wr(self, st, loc, val):
        if loc[0] == "value":
            raise Undecided("write through a shared reference")
        _, cell, path = loc
        if not path:
            st.mem[cell] = val
            return
        old = st.mem.get(cell)
        if old is None:
            raise Undecided("partial write to unset place")
        st.mem[cell] = self.set_path(st, old, path, val)

    def set_path(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if v and v[0] == "uninit":
            return ("uninit", val)
        if p == "box":
            return ("box", self.set_path(st, v[1], path[1:], val))
        if isinstance(p, tuple):
            items = list(v[2])
            items[p[1]] = self.set_path(st, items[p[1]], path[1:], val)
            return ("seq", v[1], tuple(items))
        v = self.need_agg(st, v)
        f = list(v[3])
        if p >= len(f):
            raise Undecided(f"field {p} of {show(v)}")
        f[p] = self.set_path(st, f[p], path[1:], val)
        return ("agg", v[1], v[2], tuple(f))

    def need_agg(self, st, v):
        """expose the fields of an unknown struct"""
        if v and v[0] in ("agg",):
            return v
        if v and v[0] == "clo":
            return ("agg", "closure", 0, v[3])
        if v and v[0] == "s":
            raise Fork(self.expand(st, v))
        raise Undecided(f"fields of {show(v)}")

    def expand(self, st, v):
        t = LABEL_TY.get(v[1])
        if t is None or t[0] != "adt":
            raise Undecided(f"structure of {show(v)}")
        if self.expand_hook:
            r = self.expand_hook(self, st, v, t)
            if r is not None:
                return r
        adt = self.prog.adts.get(t[1])
        if adt is None or not adt["variants"]:
            raise Undecided(f"structure of {t[1]}")
        names = self.prog_generics(t[1])
        alts = []
        for i, var in enumerate(adt["variants"]):
            sub = self.adt_subst(t)
            fields = tuple(self.fresh(st, self.norm(mir.subst(ft, sub), {})) for _, ft in var["fields"])
            nv = ("agg", t[1], i, fields)
            alts.append([("mem", nv, st.mem), ("sub", {v: nv})])
        return alts

    def prog_generics(self, key):
        return gn(self.prog.adts.get(key, {}).get("generics", []))

    def adt_subst(self, t):
        gs = self.prog_generics(t[1])
        return {g: a for g, a in zip(gs, [a for a in t[2] if isinstance(a, tuple)])}

    def discr(self, st, v):
        """discriminant of an enum value"""
        if v[0] == "agg":
            adt = self.prog.adts.get(v[1])
            if adt and adt["variants"] and v[2] < len(adt["variants"]):
                return adt["variants"][v[2]]["discr"]
            return v[2]
        if v[0] == "s":
            raise Fork(self.expand(st, v))
        if v[0] == "t" and v[3]:
            t = LABEL_TY.get(v[3])
            if t and t[0] == "adt":
                return ("t", "discr", (v,), "int:isize")
        raise Undecided(f"discriminant of {show(v)}")

    # ---- types ------------------------------------------------------------------------------

    def norm(self, t, substs):
        """substitute and resolve associated types"""
        t = mir.subst(t, substs) if substs else t
        return self._norm(t)

    def _norm(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "alias":
            args = tuple(self._norm(a) for a in t[2])
            r = self.resolve_alias(t[1], args)
            return r if r is not None else ("alias", t[1], args)
        if t[0] in ("int", "bool", "char", "str", "never", "c", "cparam", "param", "float"):
            return t
        return tuple(self._norm(x) if isinstance(x, tuple) else x for x in t)

    def resolve_alias(self, key, args):
        if self.assoc_hook:
            r = self.assoc_hook(self, key, args)
            if r is not None:
                return self._norm(r)
        ti = self.prog.trait_items.get(key)
        if ti is None:
            if key.endswith("::Iterator::Item") or key.endswith("IntoIterator::Item"):
                return None
            return None
        trait, name, _ = ti
        imp, sub = self.find_impl(trait, args)
        if imp is None or key not in imp["assoc"]:
            return None
        return self.norm(imp["assoc"][key], sub)

    def find_impl(self, trait, args):
        """(impl, substs) for <args[0] as trait<args[1:]>>"""
        cands = []
        for imp in self.prog.impls_by_trait.get(trait, []):
            s = {}
            pat = (imp["self"],) + tuple(a for a in imp["args"] if a != "'")
            if not mir.unify(imp["self"], args[0], s):
                continue
            ia = [a for a in imp["args"][1:] if isinstance(a, tuple)]
            ta = [a for a in args[1:] if isinstance(a, tuple)]
            good = True
            for x, y in zip(ia, ta):
                if not mir.unify(x, y, s):
                    good = False
                    break
            if good:
                blanket = imp["self"][0] == "param"
                cands.append((blanket, len(repr(imp["self"])), imp, s))
        if not cands:
            return None, None
        spec = [c for c in cands if not c[0]]
        if spec:
            spec.sort(key=lambda c: -c[1])
            return spec[0][2], spec[0][3]
        if args[0][0] in ("param", "alias"):
            return None, None
        return cands[0][2], cands[0][3]

    # ---- running ------------------------------------------------------------------------------

    def push(self, st, body, substs, args, dest, ret, post=None):
        if len(st.frames) >= self.max_depth:
            raise Undecided(f"call depth at {body.key}")
        f = Frame(body, substs, dest, ret, post)
        d = len(st.frames)
        st.frames.append(f)
        self.bodies_used.add(body.key)
        args = list(args)
        if body.spread:
            k = body.spread - 1
            if len(args) > body.argc:
                args = args[:k] + [("agg", "tuple", 0, tuple(args[k:]))]
        if len(args) != body.argc:
            raise Undecided(f"{body.key}: {len(args)} arguments for {body.argc}")
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a

    def start(self, key, args, substs=None, st=None):
        st = st or State()
        self.push(st, self.prog.bodies[key], substs or {}, args, None, None)
        return st

    def run(self, st, on_exit=None, on_panic=None):
        self.on_exit = on_exit
        self.on_panic = on_panic
        work = [st]
        while work:
            if self.nstates > self.max_states:
                self.undecided.append(("state limit", st.trace_list(5)))
                return
            s = work.pop()
            if MODE["until"] and time.time() > MODE["until"]:
                self.undecided.append(("time limit", self.where(s)))
                return
            try:
                work.extend(self.advance(s))
            except Undecided as e:
                self.undecided.append((str(e), self.where(s)))
                if len(self.undecided) > 20:
                    return

    def where(self, s):
        out = []
        for f in s.frames[-4:]:
            line = None
            blk = f.body.blocks[f.bb]
            if blk:
                if f.si < len(blk[0]):
                    x = blk[0][f.si]
                    line = x[-1] if x[0] in ("=", "setd") else None
                else:
                    line = blk[1][-1]
            out.append(f"{f.body.key}:{line}")
        return out

    def alt(self, st, actions):
        """apply one refinement, or None"""
        n = st.copy()
        try:
            for a in actions:
                if a[0] == "sub":
                    self.apply_subst(n, a[1])
                elif a[0] == "is":
                    self.assume(n, a[1], a[2])
                elif a[0] == "dom":
                    self.restrict(n, a[1], a[2])
                elif a[0] == "mem":
                    for c in _cells(a[1]):
                        if c not in n.mem and c in a[2]:
                            n.mem[c] = a[2][c]
                elif a[0] == "note":
                    n.note(a[1])
                elif a[0] == "do":
                    a[1](n)
        except Infeasible:
            return None
        return n

    def advance(self, st):
        """run until a control point; returns successor states"""
        while True:
            self.nsteps += 1
            st.steps += 1
            if self.nsteps > self.max_steps:
                raise Undecided("step limit")
            f = st.frames[-1]
            blk = f.body.blocks[f.bb]
            if blk is None:
                raise Undecided("cleanup block reached")
            try:
                if f.si < len(blk[0]):
                    self.stmt(st, blk[0][f.si])
                    f.si += 1
                    continue
            except Infeasible:
                return self.end(st)
            except Fork as fk:
                out = []
                for a in fk.alts:
                    n = self.alt(st, a)
                    if n is not None:
                        out.append(n)
                self.nstates += len(out) - 1
                if len(out) == 1:
                    st = out[0]
                    continue
                return out or self.end(st)
            backup = None
            try:
                term = blk[1]
                if term[0] in ("call", "drop"):
                    backup = st.copy()
                r = self.term(st, term)
                if st.picks:
                    st.picks = {}
                if r is None:
                    continue
                if r == "head":
                    h = self.head(st)
                    if h is None:
                        return []
                    st = h
                    continue
                return r or self.end(st)
            except Infeasible:
                return self.end(st)
            except Undecided:
                raise
            except Fork as fk:
                base = backup if backup is not None else st
                out = []
                for a in fk.alts:
                    n = self.alt(base, a)
                    if n is not None:
                        out.append(n)
                self.nstates += len(out) - 1
                if len(out) == 1:
                    st = out[0]
                    continue
                return out or self.end(base)

    def end(self, st):
        self.ends.add(st.node)
        return []

    def hangs(self):
        """paths to loops that, once there, no choice of anything leaves"""
        if self.undecided:
            return []
        back = {}
        for a, bs in self.edges.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        good = set(self.ends)
        work = list(good)
        while work:
            for a in back.get(work.pop(), ()):
                if a not in good:
                    good.add(a)
                    work.append(a)
        out = []
        for n in range(1, len(self.paths)):
            if n not in good:
                loc, trace = self.paths[n]
                t = []
                while trace is not None and len(t) < 60:
                    t.append(trace[1])
                    trace = trace[0]
                out.append((loc, t[::-1]))
        return out

    def judge(self, st, v, fn, depth=0):
        """fn(state, value), told apart as far as fn needs it"""
        st = st.copy()
        st.mem[("g", "judged")] = v
        try:
            fn(st, v)
        except Infeasible:
            pass
        except Undecided as e:
            self.undecided.append((str(e), "result"))
        except Fork as fk:
            if depth > 12:
                self.undecided.append(("too many cases", "result"))
                return
            for a in fk.alts:
                n = self.alt(st, a)
                if n is not None:
                    self.judge(n, n.mem[("g", "judged")], fn, depth + 1)

    def goto(self, st, bb):
        f = st.frames[-1]
        f.bb = bb
        f.si = 0
        if bb in f.body.heads:
            return "head"
        return None

    # ---- statements -----------------------------------------------------------------------------

    def stmt(self, st, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, s[2], s[1])
            self.wr(st, self.loc(st, s[1]), v)
        elif k == "setd":
            l = self.loc(st, s[1])
            v = self.rd(st, l)
            if v[0] == "agg":
                self.wr(st, l, ("agg", v[1], s[2], v[3]))
            else:
                raise Undecided("set discriminant")
        elif k in ("live",):
            pass
        elif k == "dead":
            st.mem.pop((len(st.frames) - 1, s[1]), None)

    def operand(self, st, o):
        k = o[0]
        if k in ("copy", "move"):
            l = self.loc(st, o[1])
            v = self.rd(st, l)
            if k == "move" and len(o[1]) == 1:
                pass
            return v
        return self.const(st, o[1])

    def const(self, st, c):
        f = st.frames[-1]
        t = self.norm(c["t"], f.substs)
        if "bits" in c:
            b = int(c["bits"])
            if t[0] == "int" and t[1].startswith("i"):
                lo, hi = INT_RANGE[t[1]]
                if b > hi:
                    b -= 2 * (hi + 1)
            return b
        if t[0] == "fndef":
            return ("fn", t[1], t[2])
        if c.get("zst") is not None or "zst" in c:
            return self.zst(st, t)
        if c.get("promoted") is not None:
            return self.eval_body(st, self.prog.promoted[(c["unev"], c["promoted"])], c.get("args", ()))
        if c.get("unev") is not None:
            return self.eval_const_item(st, c, t)
        if "slice" in c:
            raw = bytes.fromhex(c["slice"]["hex"]) if isinstance(c["slice"], dict) else bytes.fromhex(c["slice"])
            if t[0] == "ref" and t[1][0] == "str":
                return ("vref", ("seq", "str", tuple(ord(x) for x in raw.decode("utf-8", "surrogateescape"))))
            return ("vref", ("seq", "slice", tuple(raw)))
        if "ptr" in c or "mem" in c:
            return self.const_mem(st, c, t)
        if c.get("tyconst") is not None:
            tc = c["tyconst"]
            if isinstance(tc, (list, tuple)) and tc[0] == "cval":
                return int(tc[1])
            name = tc[1] if isinstance(tc, (list, tuple)) else tc
            v = f.substs.get(name)
            if v and v[0] == "c":
                return int(v[1])
            if t[0] == "int":
                return ("s", ty_label(t), "const:" + str(name))
            raise Undecided("const parameter")
        if t[0] in ("tuple",) and not t[1]:
            return UNIT
        raise Undecided(f"constant of type {mir.ty_str(t)}")

    def const_mem(self, st, c, t):
        p = c.get("ptr") or c.get("mem")
        if isinstance(p, str) and p.startswith("Static(") and "static" in self.hooks:
            return self.hooks["static"](self, st, p[7:-1].split("~")[-1].strip(" )"), t)
        if isinstance(p, str) and p.startswith("Static(") and t[0] == "ref" and _frozen(t[1]):
            key = re.sub(r"\[[0-9a-f]+\]", "", p[7:-1].split("~")[-1].strip(" )"), count=1)
            b = self.prog.bodies.get(key)
            if b is not None and "mutability: Not" in self.prog.defs.get(key, {}).get("kind", ""):
                return ("vref", self.eval_body(st, b, ()))
        if t[0] == "ref" and isinstance(p, dict) and "hex" in p:
            inner = t[1]
            raw = bytes.fromhex(p["hex"])
            if inner[0] == "array" and inner[1] == ("int", "u8"):
                return ("vref", ("seq", "array", tuple(raw)))
            if inner[0] in ("array", "slice") and inner[1][0] in ("int", "char", "bool"):
                sz = _int_size(inner[1])
                return ("vref", ("seq", "array", tuple(
                    int.from_bytes(raw[i:i + sz], "little") for i in range(0, len(raw), sz))))
        return ("s", ty_label(t), "const:" + repr(sorted((k, str(v)) for k, v in c.items() if k != "t"))[:200])

    def eval_const_item(self, st, c, t):
        key = c["unev"]
        hook = self.hooks.get(("const", key))
        if hook:
            return hook(self, st, c, t)
        args = tuple(self.norm(a, st.frames[-1].substs) for a in c.get("args", ()))
        ti = self.prog.trait_items.get(key)
        if ti:
            imp, sub = self.find_impl(ti[0], args)
            if imp and key in imp["imap"]:
                b = self.prog.bodies.get(imp["imap"][key])
                if b:
                    return self.eval_body(st, b, (), sub)
        b = self.prog.bodies.get(key)
        if b is not None:
            return self.eval_body(st, b, c.get("args", ()))
        return ("s", ty_label(t), "const:" + key)

    def eval_body(self, st, body, args, sub=None):
        """constant bodies: straight-line, no forks expected"""
        s = State()
        if sub is None:
            sub = {}
            fr = st.frames[-1]
            for g, a in zip(_gnames(body), [a for a in args if isinstance(a, tuple)]):
                sub[g] = self.norm(a, fr.substs)
            if body.promoted is not None and not sub:
                sub = dict(fr.substs)
        if body.promoted is not None:
            sub = dict(st.frames[-1].substs)
        s.frames = []
        self.push(s, body, sub, [], None, None)
        res = []
        saved = self.on_exit, self.on_panic
        self.on_exit = lambda E, n, v: res.append((n, v))
        try:
            out = self.advance(s)
        finally:
            self.on_exit, self.on_panic = saved
        if out or len(res) != 1:
            raise Undecided(f"constant body {body.key}")
        n, v = res[0]
        return _freeze(n, v)

    def zst(self, st, t):
        if t[0] == "adt":
            adt = self.prog.adts.get(t[1])
            if adt and adt["variants"]:
                return ("agg", t[1], 0, tuple(self.zst(st, mir.subst(ft, self.adt_subst(t)))
                                              for _, ft in adt["variants"][0]["fields"]))
            return ("agg", t[1], 0, ())
        if t[0] == "tuple":
            return ("agg", "tuple", 0, tuple(self.zst(st, x) for x in t[1]))
        if t[0] == "closure":
            return ("clo", t[1], _fz(st.frames[-1].substs), ())
        if t[0] == "fndef":
            return ("fn", t[1], t[2])
        if t[0] == "array":
            return ("seq", "array", ())
        return ("agg", "zst:" + ty_label(t), 0, ())

    def place_ty(self, st, place):
        """best-effort static type of a place"""
        f = st.frames[-1]
        t = self.norm(f.body.locals[place[0]], f.substs)
        var = None
        for e in place[1:]:
            if e == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[1]
                elif t[0] == "adt" and t[1].endswith("Box"):
                    t = t[2][0]
                else:
                    return None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "f":
                if t[0] == "tuple":
                    t = t[1][e[1]]
                elif t[0] == "adt":
                    adt = self.prog.adts.get(t[1])
                    if not adt or not adt["variants"]:
                        return None
                    fs = adt["variants"][var or 0]["fields"]
                    if e[1] >= len(fs):
                        return None
                    t = self.norm(mir.subst(fs[e[1]][1], self.adt_subst(t)), f.substs)
                else:
                    return None
                var = None
            elif e[0] in ("i", "ci"):
                if t[0] in ("slice", "array"):
                    t = t[1]
                else:
                    return None
        return t

    def rvalue(self, st, r, dest):
        k = r[0]
        if k == "use":
            if r[1][0] == "copy":
                # a box is copied only to get at its content
                l = self.loc(st, r[1][1])
                v = self.rd(st, l)
                if v and v[0:1] == ("box",) if isinstance(v, tuple) else False:
                    return ("mref", l[1], l[2] + ("box",)) if l[0] == "place" else ("vref", v[1])
            return self.operand(st, r[1])
        if k == "ref":
            if len(r[2]) > 1 and r[2][-1] == "*":
                b = self.rd(st, self.loc(st, r[2][:-1]))
                if b[0] == "msl":       # reborrow of an exclusive part of a sequence
                    return b
            l = self.loc(st, r[2])
            if r[1] == "shared" or r[1] == "fake":
                v = self.rd(st, l)
                return ("vref", v)
            if l[0] == "value":
                if r[1] == "raw":
                    return ("vref", l[1])
                if self.hooks.get("iter mut") == "named":
                    return ("vref", l[1])
                raise Undecided("exclusive borrow of a snapshot")
            if r[1] == "raw":
                self.rd(st, l)
            return ("mref", l[1], l[2])
        if k == "agg":
            kd = r[1]
            vals = tuple(self.operand(st, o) for o in r[2])
            if kd[0] == "adt":
                if kd[4] is not None:
                    raise Undecided("union")
                if kd[1] == "core::ops::range::RangeInclusive":
                    pass
                return ("agg", kd[1], kd[2], vals)
            if kd[0] == "tuple":
                return ("agg", "tuple", 0, vals)
            if kd[0] == "closure":
                return ("clo", kd[1], _fz(st.frames[-1].substs), vals)
            if kd[0] == "array":
                return ("seq", "array", vals)
            if kd[0] == "rawptr":
                return vals[0]
            raise Undecided(f"aggregate {kd[0]}")
        if k == "discr":
            return self.discr(st, self.rd(st, self.loc(st, r[1])))
        if k == "bin":
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            t = self.op_ty(st, r[2])
            return self.binop(st, r[1], a, b, t)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                t = self.op_ty(st, r[2])
                if t == ("bool",):
                    return self.negate(st, a)
                if isinstance(a, int) and t and t[0] == "int":
                    lo, hi = INT_RANGE[t[1]]
                    return (~a) & hi if lo == 0 else ~a
                return ("t", "bitnot", (a,), ty_label(t))
            if r[1] == "Neg":
                return lin_scale(a, -1)
            if r[1] == "PtrMetadata":
                v = a[1] if a[0] == "vref" else self.rd(st, ("place", a[1], a[2]))
                if v[0] == "seq":
                    return items_len(v[2])
            raise Undecided(f"unary {r[1]}")
        if k == "cast":
            a = self.operand(st, r[2])
            t = self.norm(r[3], st.frames[-1].substs)
            return self.cast(st, r[1], a, t, r[2])
        if k == "repeat":
            a = self.operand(st, r[1])
            n = r[2]
            if isinstance(n, (list, tuple)) and n[0] == "cparam":
                n = st.frames[-1].substs.get(n[1], n)
                if n[0] != "c":
                    return ("seq", "array", (("seg", ty_label(self.op_ty(st, r[1])), fresh_id(), False),))
            n = n[1] if isinstance(n, (list, tuple)) and n[0] in ("cval", "c") else n
            try:
                n = int(n)
            except (TypeError, ValueError):
                raise Undecided("array repeat")
            if n > 64:
                et = self.op_ty(st, r[1])
                return ("seq", "array", (("seg", ty_label(et), fresh_id(), True),))
            return ("seq", "array", (a,) * n)
        if k == "copyderef":
            return self.rd(st, self.loc(st, r[1]))
        raise Undecided(f"rvalue {k}")

    def op_ty(self, st, o):
        if o[0] == "const":
            return self.norm(o[1]["t"], st.frames[-1].substs)
        return self.place_ty(st, o[1])

    def cast(self, st, kind, a, t, op):
        if kind == "Transmute":
            f = st.frames[-1]
            blk = f.body.blocks[f.bb][0]
            UNSAFE_CALLS.add((f.body.key, blk[f.si][-1] if f.si < len(blk) else None, "transmute"))
            if t == ("char",) or t == ("bool",):
                self.transmuted(st, f, blk, a, CHAR_DOM if t == ("char",) else ((0, 1),))
        if kind in ("Transmute", "PtrToPtr") or kind.startswith("PointerCoercion") or kind == "BoxDerefTransmute":
            if t == ("char",) or t[0] == "int":
                return a
            return a
        if kind == "IntToInt":
            if t[0] == "int":
                lo, hi = INT_RANGE[t[1]]
                if isinstance(a, int):
                    m = hi - lo + 1
                    return (a - lo) % m + lo
                if not self._numeric(a) and a[0] != "lin":
                    return ("t", "cast", (a,), ty_label(t))
                l, h = self.range_of(st, a)
                if lo <= l and h <= hi:
                    return a
                # decide by splitting when the value is a plain symbol
                inside = dom_inter(self.dom_of(st, a), ((lo, hi),)) if a[0] != "lin" else None
                if inside:
                    out = dom_minus(self.dom_of(st, a), ((lo, hi),))
                    raise Fork([[("dom", a, ((lo, hi),))],
                                [("dom", a, out)]]) if a[0] == "s" and out and not self._only_out(st, a, lo, hi) else Undecided("cast")
                return ("t", "trunc", (a,), ty_label(t))
            if t == ("char",):
                return a
        if kind == "FloatToInt" and isinstance(a, tuple) and a[:2] == ("t", "IntToFloat") and t[0] == "int":
            l, h = self.range_of(st, a[2][0])
            if 0 <= l and h <= 1 << 20:
                return a[2][0]      # every such number is exact
        if kind in ("IntToFloat", "FloatToInt"):
            return ("t", kind, (a,), ty_label(t))
        return a

    def _only_out(self, st, a, lo, hi):
        return not dom_inter(self.dom_of(st, a), ((lo, hi),))

    def binop(self, st, op, a, b, t):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op in ("Eq", "Ne") and label_of(a) == "bool" and label_of(b) == "bool" and a != b:
                a, b = self.decide(st, a), self.decide(st, b)
            return self.cmp(st, op.lower(), a, b)
        ov = op.endswith("WithOverflow")
        if any(isinstance(x, tuple) and x and x[0] in ("mref", "vref") for x in (a, b)):
            return ("t", "addr", (), "int:usize")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        rng = INT_RANGE.get(t[1]) if t and t[0] == "int" else None
        if base in ("Add", "Sub"):
            r = lin_add(a, b, 1 if base == "Add" else -1)
        elif base == "Mul":
            if isinstance(a, int):
                r = lin_scale(b, a)
            elif isinstance(b, int):
                r = lin_scale(a, b)
            else:
                r = ("t", "mul", (a, b), ty_label(t))
        elif base in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if base == "Div":
                    if b == 0:
                        raise Infeasible()
                    r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif base == "Rem":
                    if b == 0:
                        raise Infeasible()
                    r = abs(a) % abs(b) * (1 if a >= 0 else -1)
                else:
                    r = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
                         "Shl": lambda: a << b, "Shr": lambda: a >> b}[base]()
                    if base == "Shl" and rng:
                        r &= rng[1]
            elif t == ("bool",):
                if base == "BitAnd":
                    r = self.b_and(st, a, b)
                elif base == "BitOr":
                    r = self.negate(st, self.b_and(st, self.negate(st, a), self.negate(st, b)))
                else:
                    x = self.decide(st, a)
                    r = b if x == 0 else self.negate(st, b)
                return r
            else:
                r = self._bits(st, base, a, b, rng)
                if r is None:
                    r = ("t", base, (a, b), ty_label(t) if t else "int:u64")
        elif base == "Cmp":
            return ("t", "cmp", (a, b), "ord")
        elif base == "Offset":
            raise Undecided("pointer arithmetic")
        else:
            raise Undecided(f"binary {op}")
        if not ov:
            if base in ("Add", "Sub", "Mul") and rng and "Unchecked" not in op:
                lo, hi = self.range_of(st, r) if not (isinstance(r, tuple) and r[0] == "t") else rng
                if isinstance(r, int) and not rng[0] <= r <= rng[1]:
                    m = rng[1] - rng[0] + 1
                    r = (r - rng[0]) % m + rng[0]
            return r
        o = 0
        if rng:
            lo, hi = self.range_of(st, r)
            if lo >= rng[0] and hi <= rng[1]:
                o = 0
            elif hi < rng[0] or lo > rng[1]:
                o = 1
            else:
                o = ("t", "ovf", (r, rng[0], rng[1]), "bool")
        return ("agg", "tuple", 0, (r, o))

    def _bits(self, st, base, a, b, rng):
        """bit operations that are ordinary arithmetic"""
        if a == 0:
            return b if base in ("BitOr", "BitXor") else 0
        if b == 0:
            return 0 if base == "BitAnd" else a if base != "Div" and base != "Rem" else None
        if rng is None or rng[0] != 0:
            return None
        try:
            if base == "Shl" and isinstance(b, int):
                if self.range_of(st, a)[1] << b <= rng[1]:
                    return lin_scale(a, 1 << b)
            elif base in ("BitOr", "BitXor"):
                for x, y in ((a, b), (b, a)):
                    lo, hi = self.range_of(st, y)
                    if lo < 0:
                        continue
                    m = 1 << hi.bit_length()
                    c, d = lin_parts(x)
                    if c % m == 0 and all(k % m == 0 for k in d.values()) and self.range_of(st, x)[0] >= 0:
                        return lin_add(x, y)
        except (KeyError, TypeError):
            pass
        return None

    def b_and(self, st, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        return ("t", "and", (a, b), "bool")

    # ---- terminators ------------------------------------------------------------------------------

    def term(self, st, t):
        k = t[0]
        f = st.frames[-1]
        if k == "goto":
            return self.goto(st, t[1])
        if k == "switch":
            return self.switch(st, t)
        if k == "return":
            return self.ret(st)
        if k == "unreachable":
            raise Infeasible()
        if k == "assert":
            c = self.operand(st, t[1])
            want = 1 if t[2] else 0
            r = self.assert_(st, c, want, t)
            return self.goto(st, t[5])
        if k == "drop":
            return self.drop(st, t)
        if k == "call":
            return self.call(st, t)
        raise Undecided(f"terminator {k}")

    def assert_(self, st, c, want, t):
        if t[3].startswith("other:Misaligned") or t[3].startswith("other:NullPointer"):
            return
        if isinstance(c, tuple) and c[0] == "t" and c[1] == "ovf":
            if self.on_assert:
                self.on_assert(self, st, t, c)
            r, lo, hi = c[2]
            if self.strict and not (self.counts_fit and t[3] == "overflow:Add" and hi >= 2 ** 63 - 1):
                if self.decide(st, self.cmp(st, "le", lo, r)) and self.decide(st, self.cmp(st, "le", r, hi)):
                    return
                if self.on_panic:
                    self.on_panic(self, st, f"{t[3]} at line {t[6]}")
                raise Infeasible()
            try:
                self._assume_le(st, lin_add(lo, r, -1))
                self._assume_le(st, lin_add(r, hi, -1))
            except Infeasible:
                if self.on_panic:
                    self.on_panic(self, st, f"{t[3]} at line {t[6]}")
                raise
            return
        tr = self.truth(st, c)
        if tr is not None:
            if tr != want:
                if self.on_assert:
                    self.on_assert(self, st, t, c)
                if self.on_panic:
                    self.on_panic(self, st, f"{t[3]} at line {t[6]}")
                raise Infeasible()
            return
        if self.on_assert:
            self.on_assert(self, st, t, c)
        if self.strict:
            if self.decide(st, c) != want:
                if self.on_panic:
                    self.on_panic(self, st, f"{t[3]} at line {t[6]}")
                raise Infeasible()
            return
        self.assume(st, c, want)

    def switch(self, st, t):
        v = self.operand(st, t[1])
        if isinstance(v, int):
            for val, bb in t[3]:
                if val == (v if v >= 0 else v & (2 ** 128 - 1)) or val == v:
                    return self.goto(st, bb)
                # signed discriminants come as truncated bits
                if v < 0 and val in (v & 0xff, v & 0xffff, v & 0xffffffff, v & (2 ** 64 - 1)):
                    return self.goto(st, bb)
            return self.goto(st, t[4])
        line = t[5]
        out = []
        boolean = t[2] == ("bool",) or (label_of(v) == "bool")
        if boolean:
            tr = self.truth(st, v)
            if tr is None and _composite(v):
                tr = self.decide(st, v)
            for val in ((0, 1) if tr is None else (tr,)):
                n = st.copy()
                try:
                    self.assume(n, v, val)
                    n.note(f"{n.frames[-1].body.span[0]}:{line} {show(v)} is {'true' if val else 'false'}")
                    tgt = next((bb for x, bb in t[3] if x == val), t[4])
                    r = self.goto(n, tgt)
                    if r == "head":
                        n = self.head(n)
                        if n is None:
                            continue
                    out.append(n)
                except Infeasible:
                    pass
            self.nstates += max(0, len(out) - 1)
            return out
        if not self._numeric(v):
            raise Undecided(f"switch on {show(v)}")
        rest = self.dom_of(st, v)
        used = []
        for val, bb in t[3]:
            n = st.copy()
            try:
                self.equate(n, v, val)
                n.note(f"{n.frames[-1].body.span[0]}:{line} {show(v)} = {val}")
                r = self.goto(n, bb)
                if r == "head":
                    n = self.head(n)
                    if n is None:
                        continue
                out.append(n)
            except Infeasible:
                pass
            used.append((val, val))
        n = st.copy()
        try:
            if v[0] == "lin":
                for val, _ in t[3]:
                    self.assume(n, self.cmp(n, "eq", v, val), 0)
            else:
                self.restrict(n, v, dom_minus(rest, tuple(sorted(used))))
            n.note(f"{n.frames[-1].body.span[0]}:{line} {show(v)} otherwise")
            r = self.goto(n, t[4])
            if r == "head":
                n = self.head(n)
            if n is not None:
                out.append(n)
        except Infeasible:
            pass
        self.nstates += max(0, len(out) - 1)
        return out

    def ret(self, st):
        d = len(st.frames) - 1
        f = st.frames[-1]
        v = st.mem.get((d, 0), UNIT)
        if f.post is not None:
            v = self.post(st, f.post, v)
        if d == 0:
            self.on_exit(self, st, v)
            return []
        st.frames.pop()
        for c in [c for c in st.mem if c[0] == d]:
            del st.mem[c]
        return self.finish_call(st, f.dest, f.ret, v)

    def post(self, st, post, v):
        return post[0](self, st, v, *post[1:])

    def finish_call(self, st, dest, target, v):
        if target is None:
            return []
        if dest is not None:
            if dest[0] == "loc":
                self.wr(st, dest[1], v)
            else:
                self.wr(st, self.loc(st, dest), v)
        f = st.frames[-1]
        return self.goto(st, target)

    def drop(self, st, t):
        place = t[1]
        depth = len(st.frames) - 1
        if (depth, place[0]) not in st.mem:
            return self.goto(st, t[2])
        l = self.loc(st, place)
        try:
            v = self.rd(st, l)
        except Undecided:
            return self.goto(st, t[2])
        h = self.hooks.get("drop")
        if h is not None:
            h(self, st, v)
        imp = self.drop_impl(v)
        if imp is not None and l[0] == "place":
            # run Drop::drop, then continue after the drop
            body = self.prog.bodies[imp]
            self.push(st, body, {}, [("mref", l[1], l[2])], ("loc", ("place", ("dropped", depth), ())), t[2])
            return None
        return self.goto(st, t[2])

    def drop_impl(self, v):
        if isinstance(v, tuple) and v and v[0] == "agg":
            for imp in self.prog.impls_by_trait.get("core::ops::drop::Drop", []):
                if imp["self"][0] == "adt" and imp["self"][1] == v[1]:
                    return list(imp["imap"].values())[0]
            for x in v[3]:
                if isinstance(x, tuple) and x and x[0] == "agg" and self.drop_impl(x):
                    raise Undecided("drop of a nested value with a destructor")
        return None

    # ---- calls -----------------------------------------------------------------------------------

    def call(self, st, t):
        _, func, args, dest, target, resolved, line = t
        f = st.frames[-1]
        c = Call()
        c.line = line
        c.dest = dest
        c.target = target
        c.frame = f
        c.args = [self.operand(st, a) for a in args]
        c.resolved = resolved
        if func[0] == "const":
            ft = self.norm(func[1]["t"], f.substs)
            if ft[0] == "fndef":
                c.key, c.targs = ft[1], tuple(a for a in ft[2] if isinstance(a, tuple))
                c.fnty = ft
            else:
                raise Undecided("call of non-fn constant")
        else:
            fv = self.operand(st, func)
            return self.call_value(st, fv, c.args, dest, target, line)
        return self.call_fn(st, c)

    def transmuted(self, st, f, blk, a, dom):
        """a number becomes a character or truth value: it has to be one"""
        if isinstance(a, int):
            good = any(l <= a <= r for l, r in dom)
        elif a[0] == "lin":
            good = any(self.decide(st, self.cmp(st, "le", l, a)) and self.decide(st, self.cmp(st, "le", a, r))
                       for l, r in dom)
        else:
            cur = self.dom_of(st, a)
            if cur is None:
                raise Undecided("transmute of " + show(a))
            yes, no = dom_inter(cur, dom), dom_minus(cur, dom)
            if yes and no:
                raise Fork([[("dom", a, yes)], [("dom", a, no)]])
            good = not no
        if not good:
            line = blk[f.si][-1] if f.si < len(blk) else f.body.span[1]
            why = f"{show(a)} is not a value of the type"
            self.misuse.append((f.body.key, f"{f.body.span[0]}:{line}", "transmute", why, st.trace_list()))
            if self.on_panic:
                self.on_panic(self, st, f"transmute at line {line} is undefined: {why}")
            raise Infeasible()

    def misused(self, st, c, why):
        """an unchecked operation is reached although what it requires does not hold"""
        f = c.frame.body
        self.misuse.append((f.key, f"{f.span[0]}:{c.line}", c.npath, why, st.trace_list()))

    def choice(self, st, tag, n, notes=None):
        """one of n outcomes of the current step (explored separately)"""
        if tag in st.picks:
            return st.picks[tag]

        def setter(i):
            def go(s):
                s.picks[tag] = i
                if notes:
                    s.note(notes[i])
            return go
        raise Fork([[("do", setter(i))] for i in range(n)])

    def call_fn(self, st, c):
        d = self.prog.defs.get(c.key)
        c.npath = d["npath"] if d else c.key
        if d and d.get("unsafe"):
            UNSAFE_CALLS.add((c.frame.body.key, c.line, c.npath))
        for h in self.value_hooks:
            r = h(self, st, c)
            if r is not NotImplemented:
                return self.done(st, c, r)
        for name in (c.key, c.npath):
            h = self.hooks.get(name)
            if h is not None:
                r = h(self, st, c)
                if r is not NotImplemented:
                    return self.done(st, c, r)
        # trait method: look for an implementation
        ti = self.prog.trait_items.get(c.key)
        if ti is None and c.key.rsplit("::", 1)[0] in self.prog.impls_by_trait \
                and c.npath.replace("::", "__") not in self.models:
            ti = (c.key.rsplit("::", 1)[0], c.key.rsplit("::", 1)[1], False)
        b = STD.get(c.npath)
        if b is not None:
            r = b(self, st, c)
            if r is not NotImplemented:
                return self.done(st, c, r)
        if ti is not None:
            trait, name, dflt = ti
            targs = c.targs
            imp, sub = self.find_impl(trait, targs)
            if imp is None and targs and targs[0][0] in ("param", "alias", "ref") and c.args:
                # dispatch on the value
                imp, sub = self.impl_of_value(st, trait, c.args[0])
                if imp is not None:
                    c.args[0] = self.peel(st, c.args[0])
            if imp is not None and c.key in imp["imap"]:
                key = imp["imap"][c.key]
                body = self.prog.bodies.get(key)
                if body is None:
                    raise Undecided(f"no body for {key}")
                h = self.hooks.get(key)
                if h is not None:
                    r = h(self, st, c)
                    if r is not NotImplemented:
                        return self.done(st, c, r)
                ntrait = self.trait_arity(trait) if trait in self.prog.traits else len(imp["args"])
                own = [g for g in self.own_generics(body, imp)]
                extra = targs[ntrait:]
                sub = dict(sub)
                for g, a in zip(own, extra):
                    sub[g] = a
                self.push(st, body, sub, c.args, c.dest, c.target)
                return None
            body = self.prog.bodies.get(c.key)
            if body is not None and (imp is not None or dflt):
                sub = self.body_subst(body, targs)
                self.push(st, body, sub, c.args, c.dest, c.target)
                return None
            if self.havoc is not None and not trait.startswith("laps"):
                r = self.havoc(self, st, c)
                if r is not NotImplemented:
                    return self.done(st, c, r)
            raise Undecided(f"call of {c.npath} on {mir.ty_str(targs[0]) if targs else '?'}")
        body = self.prog.bodies.get(c.key)
        if body is not None:
            self.push(st, body, self.body_subst(body, c.targs), c.args, c.dest, c.target)
            return None
        name = c.npath.replace("::", "__")
        m = self.models.get(name)
        if name + "__opt" in self.models and c.targs and c.targs[-1][:2] == ("adt", OPTION):
            m = self.models[name + "__opt"]
        if m is not None:
            body = self.prog.bodies[m]
            sub = {g: a for g, a in zip(_gnames(body), c.targs)}
            self.push(st, body, sub, c.args, c.dest, c.target)
            return None
        if self.havoc is not None:
            r = self.havoc(self, st, c)
            if r is not NotImplemented:
                return self.done(st, c, r)
        raise Undecided(f"call of {c.npath}")

    def peel(self, st, v):
        """strip references to references down to one"""
        while True:
            if v[0] == "vref" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("vref", "mref"):
                v = v[1]
            elif v[0] == "mref":
                x = self.rd(st, ("place", v[1], v[2]))
                if not (isinstance(x, tuple) and x and x[0] in ("vref", "mref")):
                    return v
                v = x
            else:
                return v

    def call_model(self, st, name, args, dest, target, targs=(), post=None):
        body = self.prog.bodies[self.models[name]]
        sub = {g: a for g, a in zip(_gnames(body), targs)}
        self.push(st, body, sub, args, dest, target, post)
        return CALL

    def done(self, st, c, r):
        if r is CALL:
            return None
        if type(r).__name__ == "Resume":
            return r.r
        return self.finish_call(st, c.dest, c.target, r)

    def trait_arity(self, trait):
        t = self.prog.traits.get(trait)
        g = t.get("generics") if t else None
        if g is None:
            return 1
        return len(gn(g))

    def own_generics(self, body, imp):
        names = _gnames(body)
        ig = set()
        _params(imp["self"], ig)
        for a in imp["args"]:
            _params(a, ig)
        parent = imp.get("generics")
        if parent:
            ig |= set(gn(parent))
        return [g for g in names if g not in ig]

    def body_subst(self, body, targs):
        return {g: a for g, a in zip(_gnames(body), targs)}

    def impl_of_value(self, st, trait, v):
        for _ in range(4):
            if v[0] == "mref":
                v = self.rd(st, ("place", v[1], v[2]))
            elif v[0] in ("vref", "box"):
                v = v[1]
            else:
                break
        if v[0] == "agg":
            for imp in self.prog.impls_by_trait.get(trait, []):
                if imp["self"][0] == "adt" and imp["self"][1] == v[1]:
                    return imp, {}
        return None, None

    def deref(self, st, v):
        while True:
            if isinstance(v, int):
                return v
            if v[0] == "mref":
                v = self.rd(st, ("place", v[1], v[2]))
            elif v[0] == "vref":
                v = v[1]
            else:
                return v

    def call_value(self, st, fv, args, dest, target, line=None):
        """call a closure / function value with an untupled argument list"""
        src = None
        while True:
            if fv[0] == "mref":
                src = fv
                fv = self.rd(st, ("place", fv[1], fv[2]))
            elif fv[0] in ("vref", "box"):
                src = None if fv[0] == "box" else src
                fv = fv[1]
            else:
                break
        if fv[0] == "clo":
            body = self.prog.bodies.get(fv[1])
            if body is None:
                raise Undecided(f"no body for closure {fv[1]}")
            sub = dict(fv[2])
            et = body.locals[1]
            d = len(st.frames)
            self.push(st, body, sub, [fv] + list(args), dest, target)
            if et[0] == "ref":
                if et[2]:
                    if src is None:
                        st.mem[(d, "env")] = fv
                        src = ("mref", (d, "env"), ())
                    st.mem[(d, 1)] = src
                else:
                    st.mem[(d, 1)] = ("vref", fv)
            return None
        if fv[0] == "fn":
            c = Call()
            c.key, c.targs = fv[1], tuple(a for a in fv[2] if isinstance(a, tuple))
            c.args, c.dest, c.target, c.line, c.resolved = list(args), dest, target, line, None
            c.frame = st.frames[-1]
            c.fnty = None
            # tuple-struct / variant constructors
            ctor = self.ctor(c.key)
            if ctor is not None:
                return self.finish_call(st, dest, target, ("agg", ctor[0], ctor[1], tuple(args)))
            return self.call_fn(st, c)
        h = self.hooks.get("call-opaque")
        if h is not None:
            r = h(self, st, fv, args)
            if r is not NotImplemented:
                return self.finish_call(st, dest, target, r)
        raise Undecided(f"call of unknown function value {show(fv)}")

    def ctor(self, key):
        base = key[:-len("::{constructor#0}")] if key.endswith("::{constructor#0}") else None
        if base is None:
            if key in self.prog.adts:
                return (key, 0)
            p = key.rsplit("::", 1)
            if len(p) == 2 and p[0] in self.prog.adts:
                for i, v in enumerate(self.prog.adts[p[0]]["variants"]):
                    if v["name"] == p[1]:
                        return (p[0], i)
            return None
        if base in self.prog.adts:
            return (base, 0)
        p = base.rsplit("::", 1)
        if p[0] in self.prog.adts:
            for i, v in enumerate(self.prog.adts[p[0]]["variants"]):
                if v["name"] == p[1]:
                    return (p[0], i)
        return None

    # ---- loop heads ----------------------------------------------------------------------------

    def le_norm(self, st):
        """of facts c + L <= 0 with the same L keep the strongest"""
        if len(st.le) < 2:
            return
        best = {}
        for f in st.le:
            c, d = lin_parts(f)
            k = tuple(sorted(d.items(), key=repr))
            if k not in best or best[k][0] < c:
                best[k] = (c, f)
        st.le = frozenset(f for _, f in best.values())

    def head(self, st):
        """normalise at a loop head; None if already explored"""
        cp = tuple((f.body.key, f.body.promoted, f.bb) for f in st.frames)
        self.gc(st)
        hk = (cp, self._flags(st), None if self.partition is None else self.partition(st))
        prev = st.hist.get(hk)
        visit = (prev[0] + 1) if prev else 1
        if self.cut_after is not None and visit > self.cut_after:
            self.end(st)
            return None
        if self.blur_after is not None and visit > self.blur_after + self.fold_after:
            self.blur(st)
        if visit > self.fold_after:
            self.fold(st, prev[1] if prev else None, visit)
        self.le_norm(st)
        # huge length bounds carry no information; forgetting them is the widening for lengths
        for t, d in list(st.dom.items()):
            if t[0] == "t" and t[1] == "len" and d[-1][1] > 2 ** 60:
                if d[0][0] <= (1 if t[2][0][3] else 0):
                    del st.dom[t]
                else:
                    st.dom[t] = d[:-1] + ((d[-1][0], 2 ** 63 - 1),)
        if visit > self.widen_after + self.fold_after:
            self.widen(st, prev[1])
        if visit > self.max_visits:
            import os
            if os.environ.get("LAPS_LOOP"):
                print("LOOP", cp)
                for c, v in list(st.mem.items()) + list(st.ghost.items()):
                    print("   ", c, show(v))
                print("   dom", {show(k): v for k, v in st.dom.items()})
                print("   pt", {show(k): v for k, v in st.pt.items()})
                print("   le", [show(k) for k in st.le])
            raise Undecided("loop does not stabilise")
        h = dict(st.hist)
        snap = dict(st.mem)
        for k, v in st.ghost.items():
            snap[("ghost", k)] = v
        snap[("dom",)] = dict(st.dom)
        snap[("le",)] = st.le
        h[hk] = (visit, snap)
        st.hist = h
        key = self.canon(st, cp)
        known = self.seen.get(key)
        self.edges.setdefault(st.node, set()).add(known or len(self.paths))
        if known:
            return None
        self.seen[key] = len(self.paths)
        st.node = len(self.paths)
        f = st.frames[-1]
        self.paths.append(((f.body.key, f.body.span), st.trace))
        self.nstates += 1
        if self.nstates > self.max_states:
            raise Undecided("state limit")
        return st

    def _flags(self, st):
        """truth values of the boolean variables: visits are counted apart for each combination"""
        out = []
        for (d, l), v in st.mem.items():
            if d.__class__ is int and v.__class__ is int and l.__class__ is int and d < len(st.frames) \
                    and st.frames[d].body.locals[l] == ("bool",):
                out.append((d, l, v))
        out.sort()
        return tuple(out)

    def gc(self, st):
        roots = []
        keep = set()
        for d, f in enumerate(st.frames):
            if d == len(st.frames) - 1:
                live = f.body.live[f.bb]
            else:
                nxt = st.frames[d + 1]
                live = f.body.live[nxt.ret] if nxt.ret is not None else set()
                ds = nxt.dest
                if ds is not None and ds[0] != "loc" and len(ds) > 1:
                    live = live | {ds[0]}
            for l in live:
                keep.add((d, l))
            if d == 0:
                for l in range(1, f.body.argc + 1):
                    pass
        work = [c for c in keep if c in st.mem]
        for g in st.ghost.values():
            work.extend(_cells(g))
        for c in list(st.mem):
            if c[0] == "g":
                work.append(c)
        seen = set()
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            v = st.mem.get(c)
            if v is not None:
                work.extend(_cells(v))
        for c in list(st.mem):
            if c not in seen:
                del st.mem[c]
        # facts about atoms no longer held anywhere
        held = set()
        for v in st.mem.values():
            held.update(atoms(v))
        for v in st.ghost.values():
            held.update(atoms(v))
        if isinstance(st.aux, tuple):
            held.update(atoms(st.aux))
        st.dom = {t: d for t, d in st.dom.items() if all(a in held for a in atoms(t))}
        st.pt = {t: d for t, d in st.pt.items() if all(a in held for a in atoms(t))}
        st.le = frozenset(f for f in st.le if all(a in held for a in atoms(f)))

    def fold(self, st, prev, visit):
        """merge sequence elements that are adjacent wherever they occur"""
        while True:
            vals = list(st.mem.values()) + list(st.ghost.values())
            if isinstance(st.aux, tuple):
                vals.append(st.aux)
            seqs = []
            for v in vals:
                seqs.extend(seqs_in(v))
            uses = {}
            for v in vals:
                for a in atoms(v):
                    uses[a] = uses.get(a, 0) + 1
            inseq = {}
            lenuse = {}
            for s in seqs:
                for it in s[2]:
                    a = it[1] if isinstance(it, tuple) and it and it[0] == "rev" else it
                    if is_atom(a):
                        inseq[a] = inseq.get(a, 0) + 1
            for v in vals:
                for t in _len_terms(v):
                    lenuse[t] = lenuse.get(t, 0) + 1
            ok_atoms = {a for a, n in inseq.items() if n + lenuse.get(a, 0) == uses[a]
                        and (a[0] == "seg" or True)}
            # successor in each sequence
            nxt = {}
            bad = set()
            for s in seqs:
                row = []
                for it in s[2]:
                    rev = isinstance(it, tuple) and it and it[0] == "rev"
                    a = it[1] if rev else it
                    row.append((a if is_atom(a) else None, rev))
                cnt = {}
                for a, _ in row:
                    if a is not None:
                        cnt[a] = cnt.get(a, 0) + 1
                        if cnt[a] > 1:
                            bad.add(a)
                for i, (a, rev) in enumerate(row):
                    if a is None:
                        continue
                    left = row[i - 1] if i > 0 else (None, False)
                    right = row[i + 1] if i + 1 < len(row) else (None, False)
                    # single symbols are orientation-neutral; record both neighbours
                    nxt.setdefault(a, []).append((left, right, rev))
            cand = None
            for a in sorted(ok_atoms, key=repr):
                if a in bad:
                    continue
                for b in self._partners(a, nxt, ok_atoms, bad):
                    if a[1] != b[1]:
                        continue
                    if self._facts_mergeable(st, a, b, visit):
                        cand = (a, b)
                        break
                if cand:
                    break
            if cand is None:
                return
            self._merge(st, cand[0], cand[1], prev)

    def _partners(self, a, nxt, okset, bad):
        """atoms b with a immediately before b (or reversed) in every occurrence"""
        occ = nxt[a]
        cands = set()
        for left, right, rev in occ[:1]:
            for n in (left, right):
                if n[0] is not None:
                    cands.add(n[0])
        out = []
        for b in sorted(cands, key=repr):
            if b == a or b in bad or b not in okset:
                continue
            if len(nxt[b]) != len(occ):
                continue
            good = True
            nfwd = 0
            for left, right, rev in occ:
                fwd = right[0] == b and not _is_rev(a, rev) and not _is_rev(b, right[1])
                bwd = left[0] == b and (_is_rev(a, rev) or a[0] == "s") and (_is_rev(b, left[1]) or b[0] == "s")
                nfwd += fwd
                if not fwd and not bwd:
                    good = False
                    break
            if good and nfwd:
                # need at least one forward reading to fix the orientation
                out.append(b)
        return out

    def _unary(self, st, a):
        """facts about the element itself: {template: value}"""
        out = {}
        if a in st.dom:
            out[("dom",)] = st.dom[a]
        hole = ("hole",)
        for t, b in st.pt.items():
            if a in atoms(t):
                out[("pt", _replace(t, a, hole))] = b
        return out

    def _facts_mergeable(self, st, a, b, visit):
        for f in st.le:
            for x in (a, b):
                if x[0] == "s" and x in atoms(f):
                    return False
        fa, fb = self._unary(st, a), self._unary(st, b)
        if fa == fb:
            return True
        return visit > 3

    def _merge(self, st, a, b, prev):
        # known length of each part
        la = 1 if a[0] == "s" else seg_len(a)
        lb = 1 if b[0] == "s" else seg_len(b)
        known = la + lb if isinstance(la, int) and isinstance(lb, int) else None
        m = ("seg", a[1], fresh_id(), (a[0] == "s" or a[3]) or (b[0] == "s" or b[3]))
        fa, fb = self._unary(st, a), self._unary(st, b)
        join = {}
        for k in fa:
            if k in fb:
                if k == ("dom",):
                    join[k] = dom_union(fa[k], fb[k])
                elif fa[k] == fb[k]:
                    join[k] = fa[k]
        # replace a,b by m in sequences
        repl = {}

        def go(v):
            if not isinstance(v, tuple) or not v:
                return v
            r = repl.get(v)
            if r is not None:
                return r
            if v[0] == "seq":
                items = []
                i = 0
                src = v[2]
                while i < len(src):
                    it = src[i]
                    base = it[1] if isinstance(it, tuple) and it and it[0] == "rev" else it
                    if base == a and i + 1 < len(src):
                        nb = src[i + 1]
                        nbb = nb[1] if isinstance(nb, tuple) and nb and nb[0] == "rev" else nb
                        if nbb == b:
                            items.append(m)
                            i += 2
                            continue
                    if base == b and i + 1 < len(src):
                        nb = src[i + 1]
                        nbb = nb[1] if isinstance(nb, tuple) and nb and nb[0] == "rev" else nb
                        if nbb == a:
                            items.append(("rev", m))
                            i += 2
                            continue
                    items.append(go(it))
                    i += 1
                r = ("seq", v[1], tuple(items))
            elif v[0] == "t" and v[1] == "len" and v[2][0] in (a, b):
                if v[2][0] == a:
                    r = lin_add(seg_len(m), lb, -1)
                else:
                    r = lin_add(seg_len(m), la, -1)
                    if isinstance(la, tuple):
                        r = v     # two lengths summed elsewhere; handled by lin case below
            elif v[0] == "lin":
                d = dict(v[2])
                c = v[1]
                ta = d.get(la) if isinstance(la, tuple) else None
                tb = d.get(lb) if isinstance(lb, tuple) else None
                if isinstance(la, tuple) and isinstance(lb, tuple):
                    if ta is not None and ta == tb:
                        d.pop(la)
                        d.pop(lb)
                        d[seg_len(m)] = ta
                elif ta is not None:
                    d.pop(la)
                    d[seg_len(m)] = ta
                    c -= ta * lb
                elif tb is not None:
                    d.pop(lb)
                    d[seg_len(m)] = tb
                    c -= tb * la
                r = lin_make(c, {go(t): n for t, n in d.items()})
            elif v[0] in ("s", "seg"):
                r = v
            else:
                out = []
                ch = False
                for x in v:
                    n = go(x) if isinstance(x, tuple) else x
                    ch = ch or n is not x
                    out.append(n)
                r = tuple(out) if ch else v
            repl[v] = r
            return r

        # counters that grew in step with this run of elements
        if known is not None and prev is not None:
            self._counters(st, prev, a, b, known, m)
        for k in list(st.mem):
            st.mem[k] = go(st.mem[k])
        for k in list(st.ghost):
            st.ghost[k] = go(st.ghost[k])
        if isinstance(st.aux, tuple):
            st.aux = go(st.aux)
        nle = []
        for f in st.le:
            g = go(f)
            if a in atoms(g) or b in atoms(g) or isinstance(g, int):
                continue
            nle.append(g)
        st.le = frozenset(nle)
        nd = {}
        for t, d in st.dom.items():
            at = atoms(t)
            if a in at or b in at:
                if t[0] == "t" and t[1] == "len":
                    oth = lb if t[2][0] == a else la
                    if isinstance(oth, int):
                        nd[seg_len(m)] = dom_shift(d, oth)
                    else:
                        nd[seg_len(m)] = ((d[0][0], INF),)
                continue
            nd[t] = d
        st.dom = nd
        st.pt = {t: x for t, x in st.pt.items() if a not in atoms(t) and b not in atoms(t)}
        for k, x in join.items():
            if k == ("dom",):
                st.dom[m] = x
            else:
                st.pt[_replace(k[1], ("hole",), m)] = x

    def _counters(self, st, prev, a, b, known, m):
        ln = seg_len(m)

        def conv(new, old):
            """replace integers that changed since the last visit"""
            if isinstance(new, int) and not isinstance(new, bool) and isinstance(old, int) and new != old:
                if new - old == 1:
                    return lin_add(ln, new - known)
                if new - old == -1:
                    return lin_add(new + known, ln, -1)
                return new
            if isinstance(new, tuple) and isinstance(old, tuple) and len(new) == len(old) and new != old:
                if new and new[0] == "seq":
                    return new
                if new and new[0] in ("s", "seg", "t"):
                    return new
                if new and new[0] == "agg" and (new[1] != old[1] or new[2] != old[2]):
                    return new
                if new and new[0] == "lin":
                    if new[2] == old[2] and abs(new[1] - old[1]) == 1:
                        k = 1 if new[1] > old[1] else -1
                        return lin_add(new if k == 1 else new, lin_add(lin_scale(ln, k), -k * known))
                    return new
                return tuple(conv(x, y) for x, y in zip(new, old))
            return new

        for c in list(st.mem):
            if c in prev:
                st.mem[c] = conv(st.mem[c], prev[c])
        for g in list(st.ghost):
            if ("ghost", g) in prev:
                st.ghost[g] = conv(st.ghost[g], prev[("ghost", g)])
        pd = prev.get(("dom",), {})
        for t, d in list(st.dom.items()):
            if t[0] != "s":
                continue
            o = pd.get(t, default_dom(label_of(t)))
            if d[0][0] == o[0][0] + 1:
                # lower bound moves with the loop
                k = d[0][0]
                st.le = st.le | {lin_add(lin_add(ln, k - known), t, -1)}
                rest = dom_inter(((o[0][0] if False else 0, INF),), d)
                lo0 = default_dom(label_of(t))[0][0]
                nd = ((max(lo0, min(k, 1)),) + (d[-1][1],),)
                st.dom[t] = nd

    def blur(self, st):
        """forget which elements a sequence with computed elements has; equal ones stay equal"""
        made = {}

        def go(v):
            if not isinstance(v, tuple) or not v or v[0] in ("s", "seg"):
                return v
            if v[0] == "seq":
                items = v[2]
                if any(isinstance(x, int) or isinstance(x, tuple) and (
                        x[0] in ("lin", "t") or x[0] == "s" and x[1] != "char" and v[1] == "string") for x in items):
                    if items not in made:
                        some_ = any(not (isinstance(x, tuple) and x[0] in ("seg", "rev")) or
                                    (x[1] if x[0] == "rev" else x)[3] for x in items)
                        label = "char" if v[1] in ("string", "str") else None
                        for x in items:
                            if isinstance(x, tuple):
                                x = x[1] if x[0] == "rev" else x
                                label = label or label_of(x)
                        made[items] = (("seg", label, fresh_id(), some_),) if label else items
                    return ("seq", v[1], made[items])
            n = tuple(go(x) if isinstance(x, tuple) else x for x in v)
            return n if n != v else v
        for c in list(st.mem):
            st.mem[c] = go(st.mem[c])
        for g in list(st.ghost):
            st.ghost[g] = go(st.ghost[g])
        self.gc(st)

    def _keep_order(self, st, was, v, old, new):
        """what the forgotten integer was above or below all along stays so"""
        cand = set()
        c, d = lin_parts(old)
        for a, n in d.items():
            cand |= {lin_add(a, new, -1), lin_add(new, a, -1)}
        if not isinstance(old, int) and len(d) == 1 and c == 0:
            for f in was.le:
                fc, fd = lin_parts(f)
                if old in fd:
                    fd = dict(fd)
                    k = fd.pop(old)
                    cand.add(lin_add(lin_make(fc, fd), new, k))
        for f in cand:
            fc, fd = lin_parts(f)
            fd = dict(fd)
            k = fd.pop(new)
            now = lin_add(lin_make(fc, fd), v, k)
            if isinstance(now, int) and now <= 0 or not isinstance(now, int) and self.truth(st, self.cmp(st, "le", now, 0)) == 1:
                st.le = st.le | {f}

    def widen(self, st, prev):
        """last resort: forget integers that keep changing; equal ones stay equal"""
        made = {}
        was = State()
        was.dom = prev.get(("dom",), {})
        was.le = prev.get(("le",), frozenset())

        def forget(v, old):
            if v not in made:
                lo, hi = self.range_of(st, v)
                want = sorted({a[1] for a in atoms(v) if a[0] == "s" and a[1].startswith("int:")})
                for n in [w[4:] for w in want] + ["u8", "u16", "u32", "u64", "i64"]:
                    if n in INT_RANGE and INT_RANGE[n][0] <= lo and hi <= INT_RANGE[n][1]:
                        break
                else:
                    n = "i128"
                made[v] = ("s", "int:" + n, fresh_id())
                try:
                    # bounds that did not give way since the last visit are kept
                    olo, ohi = self.range_of(was, old)
                    a, b = INT_RANGE[n]
                    a, b = max(a, olo) if lo >= olo else a, min(b, ohi) if hi <= ohi else b
                    if (a, b) != INT_RANGE[n] and a < b:
                        st.dom[made[v]] = ((a, b),)
                except (KeyError, TypeError, IndexError):
                    pass
                if self.keep_order:
                    self._keep_order(st, was, v, old, made[v])
            return made[v]

        def go(new, old):
            if isinstance(new, int) and isinstance(old, int) and new != old:
                return forget(new, old)
            if isinstance(new, tuple) and isinstance(old, tuple) and len(new) == len(old) and new != old and new and \
                    (new[0] == "agg" and new[:3] == old[:3] or new[0] == "clo" and new[:2] == old[:2] or
                     new[0] in ("vref", "box") and new[0] == old[0]) or \
                    isinstance(new, tuple) and new and new[0] in ("vref", "box"):
                if not isinstance(old, tuple) or len(old) != len(new):
                    return new
                return tuple(go(x, y) for x, y in zip(new, old))
            if isinstance(new, tuple) and new and isinstance(old, tuple) and len(new) == len(old) and \
                    isinstance(new[0], (tuple, int)):
                return tuple(go(x, y) for x, y in zip(new, old))
            if isinstance(new, tuple) and new and new != old and (
                    new[0] == "lin" or new[0] == "t" and isinstance(new[3], str) and new[3].startswith("int:")):
                return forget(new, old)
            return new
        for c in list(st.mem):
            if c in prev:
                st.mem[c] = go(st.mem[c], prev[c])
        for g in list(st.ghost):
            if ("ghost", g) in prev:
                st.ghost[g] = go(st.ghost[g], prev[("ghost", g)])
        # a term forgotten in one place is forgotten everywhere: its copies stay equal
        ren = {v: n for v, n in made.items() if not isinstance(v, int)}
        if ren:
            def every(v):
                if v in ren:
                    return ren[v]
                if not isinstance(v, tuple) or not v or v[0] in ("s", "seg", "t", "lin"):
                    return v
                n = tuple(every(x) if isinstance(x, tuple) else x for x in v)
                return n if n != v else v
            for c in list(st.mem):
                st.mem[c] = every(st.mem[c])
            for g in list(st.ghost):
                st.ghost[g] = every(st.ghost[g])

    def canon(self, st, cp):
        ren = {}
        cells = {}

        def go(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] in ("s", "seg"):
                if isinstance(v[2], str):
                    return v
                n = ren.get(v)
                if n is None:
                    n = ren[v] = (v[0], v[1], len(ren)) + v[3:]
                return n
            if v[0] == "mref":
                return ("mref", cell(v[1]), v[2])
            if v[0] == "lin":
                return ("lin", v[1], tuple(sorted(((go(t), n) for t, n in v[2]), key=repr)))
            return tuple(go(x) if isinstance(x, tuple) else x for x in v)

        def cell(c):
            if c[0] == "a":
                if c not in cells:
                    cells[c] = ("a", len(cells))
                return cells[c]
            return c

        out = []
        frame_cells = sorted((c for c in st.mem if c[0] != "a"), key=repr)
        done = set()
        queue = list(frame_cells)
        while queue:
            c = queue.pop(0)
            if c in done:
                continue
            done.add(c)
            out.append((cell(c), go(st.mem[c])))
            for x in _cells(st.mem[c]):
                if x in st.mem and x not in done:
                    queue.append(x)
        gh = tuple((k, go(st.ghost[k])) for k in sorted(st.ghost))
        for k in sorted(st.ghost):
            for x in _cells(st.ghost[k]):
                if x in st.mem and x not in done:
                    done.add(x)
                    out.append((cell(x), go(st.mem[x])))
        aux = go(st.aux) if isinstance(st.aux, tuple) else st.aux
        dom = tuple(sorted(((go(t), d) for t, d in st.dom.items()), key=repr))
        pt = tuple(sorted(((go(t), d) for t, d in st.pt.items()), key=repr))
        le = tuple(sorted((go(f) for f in st.le), key=repr))
        subs = tuple(_fz(f.substs) for f in st.frames)
        rets = tuple((f.dest, f.ret) for f in st.frames)
        return (cp, tuple(out), gh, aux, dom, pt, le, subs, rets)


# ---- helpers --------------------------------------------------------------------------------------

def _composite(v):
    return isinstance(v, tuple) and v[0] == "t" and (v[1] in ("and", "or") or v[1] == "not" and _composite(v[2][0]))


def gn(gs):
    return [g[0] for g in gs if g[1] in ("ty", "const")]


def _gnames(body):
    return gn(body.generics)


def _params(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ("param", "cparam"):
            out.add(t[1])
            return
        for x in t:
            _params(x, out)


def _fz(d):
    return tuple(sorted(d.items()))


def _cells(v):
    out = []
    if isinstance(v, tuple) and v:
        if v[0] == "mref":
            return [v[1]]
        if v[0] in ("s", "seg"):
            return []
        for x in v:
            if isinstance(x, tuple):
                out.extend(_cells(x))
    return out


def _freeze(n, v):
    """turn references into the finished state into snapshots"""
    if isinstance(v, tuple) and v:
        if v[0] == "mref":
            raise Undecided("constant with a mutable reference")
        return tuple(_freeze(n, x) if isinstance(x, tuple) else x for x in v)
    return v


def _replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple) and t and t[0] not in ("s", "seg"):
        return tuple(_replace(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def _elementwise(t, seg):
    """seg occurs in t as a bare element (not inside a sequence)"""
    if t == seg:
        return True
    if isinstance(t, tuple) and t:
        if t[0] == "seq" or (t[0] == "t" and t[1] == "len"):
            return False
        if t[0] in ("s", "seg"):
            return False
        return any(_elementwise(x, seg) for x in t if isinstance(x, tuple))
    return False


def _len_terms(v):
    if not isinstance(v, tuple) or not v:
        return []
    if v[0] == "t" and v[1] == "len":
        return [v[2][0]]
    if v[0] in ("s", "seg"):
        return []
    out = []
    for x in v:
        if isinstance(x, tuple):
            out.extend(_len_terms(x))
    return out


def _is_rev(a, rev):
    return rev


def _int_size(t):
    if t == ("char",):
        return 4
    if t == ("bool",):
        return 1
    n = t[1]
    return 8 if n in ("usize", "isize") else int(n[1:]) // 8
