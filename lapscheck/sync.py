"""A shared counter behind a lock or an atomic: other threads may advance it whenever it is not held.

A region is one uninterrupted access. Its value on entry is unknown but at least that of the end
of the region before. What lies in [entry, exit) of a region belongs to that region alone.
"""
from .values import *
from .std import place_of

GUARD = "@guard"
COUNT_MAX = 2 ** 62


class Shared:
    def __init__(self, least=0):
        self.least = least          # everything issued before is below this
        self.problems = []

    def problem(self, st, key, msg):
        self.problems.append((key, msg, st.trace_list()))

    # -- the statics ----------------------------------------------------------------------

    def static(self, E, st, name, t):
        cell = ("g", "static:" + name)
        if cell not in st.mem:
            st.mem[cell] = ("s", "@shared", name)
        return ("mref", cell, ())

    def name(self, E, st, v):
        v = E.deref(st, v)
        if isinstance(v, tuple) and v[:2] == ("s", "@shared"):
            return v[2]
        return None

    def through(self, E, st, c):
        """OnceLock::get_or_init, LazyLock deref: the shared thing behind"""
        n = self.name(E, st, c.args[0])
        if n is None:
            return NotImplemented
        return c.args[0]

    # -- regions --------------------------------------------------------------------------

    def acquire(self, E, st, n, where):
        if ("held", n) in st.ghost:
            self.problem(st, "deadlock", f"acquires {n} while holding it at {where}")
            raise Infeasible()
        x = ("s", "int:usize", fresh_id())
        st.dom[x] = ((self.least, COUNT_MAX),)
        last = st.ghost.get(("last", n))
        if last is not None:
            E._assume_le(st, lin_add(last, x, -1))
        cell = ("g", "value:" + n)
        st.mem[cell] = x
        st.ghost[("held", n)] = x
        st.note(f"{where}: region begins with {show(x)}")
        return cell

    def release(self, E, st, n, where=""):
        a = st.ghost.pop(("held", n), None)
        if a is None:
            return
        b = st.mem[("g", "value:" + n)]
        if E.truth(st, E.cmp(st, "le", a, b)) != 1:
            self.problem(st, "counter goes back", f"leaves the shared counter {n} at {show(b)} where it was {show(a)}")
        st.ghost[("last", n)] = b
        st.ghost["regions"] = ("agg", "regions", 0, st.ghost.get("regions", ("agg", "regions", 0, ()))[3] + (tuple_(a, b),))
        st.note(f"region ends with {show(b)}")

    def lock(self, E, st, c):
        n = self.name(E, st, c.args[0])
        if n is None:
            return NotImplemented
        cell = self.acquire(E, st, n, f"line {c.line}")
        return ok(("agg", GUARD, 0, (("mref", cell, ()),)))

    def guard_of(self, E, st, v):
        try:
            x = E.deref(st, v)
        except Undecided:
            return None
        return x if isinstance(x, tuple) and x[:2] == ("agg", GUARD) else None

    def deref(self, E, st, c):
        g = self.guard_of(E, st, c.args[0])
        if g is not None:
            r = g[3][0]
            if c.npath.endswith("deref_mut"):
                return r
            return ("vref", E.rd(st, ("place", r[1], r[2])))
        if self.name(E, st, c.args[0]) is not None:
            return c.args[0]
        return NotImplemented

    def drop(self, E, st, v):
        if isinstance(v, tuple) and v[:2] == ("agg", GUARD):
            self.release(E, st, v[3][0][1][1][len("value:"):])
        elif isinstance(v, tuple) and v[:1] == ("agg",):
            for x in v[3]:
                self.drop(E, st, x)

    def mem_drop(self, E, st, c):
        if isinstance(c.args[0], tuple) and c.args[0][:2] == ("agg", GUARD):
            self.drop(E, st, c.args[0])
            return UNIT
        return NotImplemented

    def atomic(self, op):
        def f(E, st, c):
            n = self.name(E, st, c.args[0])
            if n is None:
                return NotImplemented
            cell = self.acquire(E, st, n, f"line {c.line}")
            x = st.mem[cell]
            r = x
            if op == "add":
                st.mem[cell] = lin_add(x, c.args[1])
            elif op == "sub":
                st.mem[cell] = lin_add(x, c.args[1], -1)
            elif op in ("store", "swap"):
                st.mem[cell] = c.args[1]
                r = UNIT if op == "store" else x
            elif op == "cas":
                if E.decide(st, E.cmp(st, "eq", x, c.args[1])):
                    st.mem[cell] = c.args[2]
                    r = ok(x)
                else:
                    r = err(x)
            self.release(E, st, n)
            return r
        return f

    def local(self, E, st, c):
        self.problem(st, "counter of one thread", f"{c.npath} at line {c.line}: the value belongs to one thread only")
        raise Infeasible()

    def hooks(self):
        A = "std::sync::atomic::Atomic::"
        h = {"static": self.static, "drop": self.drop, "std::mem::drop": self.mem_drop,
             "std::sync::OnceLock::get_or_init": self.through, "std::sync::LazyLock::force": self.through,
             "std::sync::Mutex::lock": self.lock, "std::sync::RwLock::write": self.lock, "std::sync::RwLock::read": self.lock,
             "std::ops::Deref::deref": self.deref, "std::ops::DerefMut::deref_mut": self.deref,
             A + "fetch_add": self.atomic("add"), A + "fetch_sub": self.atomic("sub"), A + "load": self.atomic("load"),
             A + "store": self.atomic("store"), A + "swap": self.atomic("swap"),
             A + "compare_exchange": self.atomic("cas"), A + "compare_exchange_weak": self.atomic("cas")}
        for m in ("with", "with_borrow", "with_borrow_mut", "set", "get", "take", "replace", "try_with"):
            h["std::thread::LocalKey::" + m] = self.local
        return h
