"""Maps and sets with few, known entries (keys told apart by value), and the
synchronised statics of the analysed code.

map  ("seq", "map", (tuple_(key, value), ...))     set  ("seq", "set", (key, ...))

Hash containers are visited in every order (up to PERM elements); ordered ones in key order
when the keys are known numbers.
"""
import itertools

from .values import *
from .engine import CALL, State
from .std import (structural_eq, place_of, isseg, ITER, extend as std_extend, into_iter as std_into_iter,
                  collect as std_collect, panic, default as std_default, COLLECT)

PERM = 3
MAPT = ("HashMap", "BTreeMap")
SETT = ("HashSet", "BTreeSet")
ENTRY = "std::collections::hash_map::Entry"


def kind_of_type(t):
    if t and t[0] == "adt":
        n = t[1].split("::")[-1]
        if n in MAPT:
            return "map"
        if n in SETT:
            return "set"
    return None


def ordered(t):
    return t and t[0] == "adt" and t[1].split("::")[-1].startswith("BTree")


def tag(t):
    k = kind_of_type(t)
    return k if k is None or not ordered(t) else "b" + k


def is_map(v):
    return isinstance(v, tuple) and v[:1] == ("seq",) and v[1] in ("map", "bmap")


def is_set(v):
    return isinstance(v, tuple) and v[:1] == ("seq",) and v[1] in ("set", "bset")


def container(E, st, v):
    x = E.deref(st, v)
    if is_map(x) or is_set(x):
        return x
    return None


def keys_of(v):
    return [x[3][0] for x in v[2]] if is_map(v) else list(v[2])


def find(E, st, v, k):
    """position of the key, or None"""
    k = E.deref(st, k)
    for i, x in enumerate(keys_of(v)):
        e = structural_eq(E, st, x, k)
        if e is None:
            raise Undecided(f"key {show(k)} against {show(x)}")
        if not isinstance(e, int):
            e = E.decide(st, e)
        if e:
            return i
    return None


def put(E, st, v, k, x=None):
    """(new container, old value or None)"""
    i = find(E, st, v, k)
    items = list(v[2])
    if is_map(v):
        old = None
        if i is not None:
            old = items[i][3][1]
            items[i] = tuple_(items[i][3][0], x)
        else:
            items.append(tuple_(k, x))
        return ("seq", v[1], tuple(arrange(v[1], items))), old
    if i is None:
        items.append(k)
    return ("seq", v[1], tuple(arrange(v[1], items))), i


def arrange(kind, items):
    if kind[0] != "b":
        return items
    f = (lambda x: x[3][0]) if kind == "bmap" else (lambda x: x)
    if len(items) < 2:
        return items
    return sorted(items, key=lambda x: rank(None, None, f(x)))


def rank(E, st, v):
    """the place of a fully known value in the derived order of its type"""
    if isinstance(v, int):
        return (v,)
    if isinstance(v, tuple) and v:
        if v[0] == "vref":
            return rank(E, st, v[1])
        if v[0] == "mref" and E is not None:
            return rank(E, st, E.deref(st, v))
        if v[0] == "agg" and isinstance(v[2], int):
            return (v[2],) + tuple(rank(E, st, x) for x in v[3])
        if v[0] == "seq" and not any(isseg(x) for x in v[2]):
            return tuple(rank(E, st, x) for x in v[2])
        if v[0] == "box":
            return rank(E, st, v[1])
    raise Undecided("order of unknown keys")


def visit(E, st, v, what="order"):
    """the elements in the order an iteration sees them"""
    items = v[2]
    if v[1][0] == "b" or len(items) < 2:
        return items
    n = len(items)
    if "keep order" in E.hooks:
        return tuple(items[i] for i in E.hooks["keep order"](E, st, n))
    if n <= PERM:
        perms = list(itertools.permutations(range(n)))
    else:
        perms = [tuple(range(n)), tuple(reversed(range(n)))] + [tuple(range(k, n)) + tuple(range(k)) for k in range(1, n)]
    w = E.choice(st, what, len(perms))
    return tuple(items[i] for i in perms[w])


def new(kind):
    def f(E, st, c):
        return ("seq", kind, ())
    return f


def h_insert(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    n, old = put(E, st, v, c.args[1], c.args[2] if is_map(v) else None)
    h = E.hooks.get("map-insert")
    if h:
        h(E, st, c, loc, v, n)
    E.wr(st, loc, n)
    if is_map(v):
        return NONE if old is None else some(old)
    return 0 if old is not None else 1


def h_remove(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    i = find(E, st, v, c.args[1])
    if i is None:
        return NONE if is_map(v) else 0
    E.wr(st, loc, ("seq", v[1], v[2][:i] + v[2][i + 1:]))
    return some(v[2][i][3][1]) if is_map(v) else 1


def h_contains(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    return 1 if find(E, st, v, c.args[1]) is not None else 0


def h_get(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    i = find(E, st, v, c.args[1])
    if i is None:
        return NONE
    if is_set(v):
        return some(("vref", v[2][i]))
    if c.npath.endswith("get_key_value"):
        return some(tuple_(*(("vref", x) for x in v[2][i][3])))
    return some(("vref", v[2][i][3][1]))


def value_ref(loc, i):
    return ("mref", loc[1], loc[2] + (("i", i), 1))


def h_get_mut(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    i = find(E, st, v, c.args[1])
    return NONE if i is None else some(value_ref(loc, i))


def h_index(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    i = find(E, st, v, c.args[1])
    if i is None:
        return panic(E, st, c)
    return ("vref", v[2][i][3][1])


def h_len(E, st, c):
    v = container(E, st, c.args[0])
    return NotImplemented if v is None else len(v[2])


def h_is_empty(E, st, c):
    v = container(E, st, c.args[0])
    return NotImplemented if v is None else int(not v[2])


def h_clear(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    E.wr(st, loc, ("seq", v[1], ()))
    return UNIT


def iterator(items):
    return ("agg", ITER, 0, (("seq", "vec", tuple(items)), 0))


def shared(E, st, v):
    xs = visit(E, st, v)
    if is_map(v):
        return iterator(tuple_(("vref", x[3][0]), ("vref", x[3][1])) for x in xs)
    return ("agg", ITER, 0, (("seq", "slice", xs), 1))


def h_iter(E, st, c):
    v = container(E, st, c.args[0])
    return NotImplemented if v is None else shared(E, st, v)


def h_iter_mut(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    xs = visit(E, st, v)
    pos = {id(x): i for i, x in enumerate(v[2])}
    out = []
    for x in xs:
        i = v[2].index(x)
        r = value_ref(loc, i)
        out.append(r if c.npath.endswith("values_mut") else tuple_(("vref", x[3][0]), r))
    return iterator(out)


def h_part(which, by_ref):
    def f(E, st, c):
        v = container(E, st, c.args[0])
        if v is None:
            return NotImplemented
        xs = [x[3][which] for x in visit(E, st, v)]
        return ("agg", ITER, 0, (("seq", "slice", tuple(xs)), 1 if by_ref else 0))
    return f


def h_into_iter(E, st, c):
    x = c.args[0]
    if isinstance(x, tuple) and x:
        if is_map(x) or is_set(x):
            return ("agg", ITER, 0, (("seq", "vec", visit(E, st, x)), 0))
        if x[0] == "vref" and (is_map(x[1]) or is_set(x[1])):
            return shared(E, st, x[1])
        if x[0] == "mref":
            y = E.rd(st, ("place", x[1], x[2]))
            if is_map(y) or is_set(y):
                return h_iter_mut(E, st, c)
    return NotImplemented


def elements(E, st, it):
    """all elements of a finite iterator that is already known, or None"""
    if not isinstance(it, tuple):
        return None
    if is_map(it) or is_set(it) or it[:1] == ("seq",):
        return it[2]
    if it[:1] == ("vref",) and isinstance(it[1], tuple) and it[1][:1] == ("seq",):
        return tuple(("vref", x) for x in it[1][2])
    if it[:1] == ("agg",) and it[1] == ITER:
        s, mode = it[3]
        return tuple(("vref", x) for x in s[2]) if mode == 1 else s[2]
    if it[:1] == ("agg",) and it[1] == OPTION:
        return it[3] if it[2] == 1 else ()
    return None


def fill(E, st, v, xs):
    for x in xs:
        if isseg(x):
            raise Undecided("unknown elements put in a map or set")
        if is_map(v):
            x = E.deref(st, x) if x[0] != "agg" else x
            k, y = (E.deref(st, a) if isinstance(a, tuple) and a[:1] == ("vref",) else a for a in x[3])
            v, _ = put(E, st, v, k, y)
        else:
            v, _ = put(E, st, v, E.deref(st, x) if isinstance(x, tuple) and x[:1] == ("vref",) else x)
    return v


def h_extend(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    xs = elements(E, st, c.args[1])
    if xs is None:
        return E.call_model(st, "model__extend_map" if is_map(v) else "model__extend_set", [c.args[0], c.args[1]],
                            c.dest, c.target)
    n = fill(E, st, v, xs)
    h = E.hooks.get("map-insert")
    if h:
        h(E, st, c, loc, v, n)
    E.wr(st, loc, n)
    return UNIT


def h_collect(E, st, c):
    t = c.targs[-1] if c.npath.endswith("collect") else c.targs[0]
    k = tag(t)
    if k is None:
        return NotImplemented
    xs = elements(E, st, c.args[0])
    if xs is None:
        m = "model__collect_" + {"map": "map", "set": "set", "bmap": "bmap", "bset": "bset"}[k]
        return E.call_model(st, m, [c.args[0]], c.dest, c.target)
    return fill(E, st, ("seq", k, ()), xs)


def h_conv(E, st, c):
    if c.npath.endswith("into"):
        src, dst = c.targs[0], c.targs[1]
    else:
        dst, src = c.targs[0], c.targs[1] if len(c.targs) > 1 else None
    k = tag(dst)
    if k is None:
        return NotImplemented
    xs = elements(E, st, c.args[0])
    if xs is None:
        return NotImplemented
    if tag(src) == k:
        return c.args[0]
    return fill(E, st, ("seq", k, ()), xs)


def h_default(E, st, c):
    k = tag(c.targs[0]) if c.targs else None
    if k is None:
        return NotImplemented
    return ("seq", k, ())


def h_entry(E, st, c):
    v = container(E, st, c.args[0])
    if v is None:
        return NotImplemented
    loc, v = place_of(E, st, c.args[0])
    i = find(E, st, v, c.args[1])
    return ("agg", "@entry", 0 if i is None else 1, (("mref", loc[1], loc[2]), c.args[1], -1 if i is None else i))


def entry_set(E, st, e, x):
    ref, k, i = e[3]
    loc, v = place_of(E, st, ref)
    n, _ = put(E, st, v, k, x)
    h = E.hooks.get("map-insert")
    if h:
        h(E, st, None, loc, v, n)
    E.wr(st, loc, n)
    return value_ref(loc, find(E, st, n, k))


def entry_get(E, st, e):
    ref, k, i = e[3]
    loc, v = place_of(E, st, ref)
    return value_ref(loc, i)


def is_entry(v):
    return isinstance(v, tuple) and v[:2] == ("agg", "@entry")


def h_or_insert(E, st, c):
    e = c.args[0]
    if not is_entry(e):
        return NotImplemented
    if e[2] == 1:
        return entry_get(E, st, e)
    return entry_set(E, st, e, c.args[1])


def h_or_default(E, st, c):
    e = c.args[0]
    if not is_entry(e):
        return NotImplemented
    if e[2] == 1:
        return entry_get(E, st, e)
    t = c.targs[1] if len(c.targs) > 1 else None
    k = tag(t)
    if k is not None:
        return entry_set(E, st, e, ("seq", k, ()))
    c2 = type(c)()
    c2.targs = (t,)
    c2.args = []
    c2.npath = "std::default::Default::default"
    d = std_default(E, st, c2)
    if d is NotImplemented:
        raise Undecided("default of an entry")
    return entry_set(E, st, e, d)


def h_or_insert_with(E, st, c):
    e = c.args[0]
    if not is_entry(e):
        return NotImplemented
    if e[2] == 1:
        return entry_get(E, st, e)
    return E.call_model(st, "model__entry_or_insert_with", [e, c.args[1]], c.dest, c.target)


def h_entry_insert(E, st, c):
    return entry_set(E, st, c.args[0], c.args[1])


def h_clone(E, st, c):
    v = E.deref(st, c.args[0]) if c.args else None
    if is_map(v) or is_set(v):
        return v
    return NotImplemented


def names(ts, ms):
    return ["std::collections::" + t + "::" + m for t in ts for m in ms]


def hooks():
    h = {}

    def reg(f, ns):
        for n in ns:
            h[n] = f
    for t in MAPT + SETT:
        k = ("b" if t.startswith("BTree") else "") + ("map" if t in MAPT else "set")
        reg(new(k), names([t], ["new", "with_capacity"]))
    both = MAPT + SETT
    reg(h_insert, names(both, ["insert"]))
    reg(h_remove, names(both, ["remove"]))
    reg(h_contains, names(MAPT, ["contains_key"]) + names(SETT, ["contains"]))
    reg(h_get, names(both, ["get"]) + names(MAPT, ["get_key_value"]))
    reg(h_get_mut, names(MAPT, ["get_mut"]))
    reg(h_len, names(both, ["len"]))
    reg(h_is_empty, names(both, ["is_empty"]))
    reg(h_clear, names(both, ["clear"]))
    reg(h_iter, names(both, ["iter"]))
    reg(h_iter_mut, names(MAPT, ["iter_mut", "values_mut"]))
    reg(h_part(0, True), names(MAPT, ["keys"]))
    reg(h_part(1, True), names(MAPT, ["values"]))
    reg(h_part(0, False), names(MAPT, ["into_keys"]))
    reg(h_part(1, False), names(MAPT, ["into_values"]))
    reg(h_entry, names(MAPT, ["entry"]))
    for e in ("std::collections::hash_map::Entry", "std::collections::btree_map::Entry"):
        h[e + "::or_default"] = h_or_default
        h[e + "::or_insert"] = h_or_insert
        h[e + "::or_insert_with"] = h_or_insert_with
    h["models::entry_insert"] = h_entry_insert
    h["std::ops::Index::index"] = h_index
    h["std::iter::IntoIterator::into_iter"] = h_into_iter
    h["std::iter::Extend::extend"] = h_extend
    h["std::iter::Iterator::collect"] = h_collect
    h["std::iter::FromIterator::from_iter"] = h_collect
    h["std::convert::Into::into"] = h_conv
    h["std::convert::From::from"] = h_conv
    h["std::default::Default::default"] = h_default
    h["std::clone::Clone::clone"] = h_clone
    return h
