"""Abstract values, linear terms, substitution, facts and widening.

Values are hashable tuples:
  int                          a known scalar (bool/char/integer)
  ("s", label, id)             an unknown value; `label` names its type
  ("t", name, args, label)     an uninterpreted term
  ("lin", c, ((term,k),...))   c + sum k*term over the integers
  ("agg", key, variant, fields)
  ("clo", key, substs, upvars) / ("fn", key, targs)
  ("vref", v)                  shared borrow (snapshot)
  ("mref", cell, path)         exclusive borrow / pointer to a place
  ("seq", kind, items)         vector, deque, string, slice, array; items may
                               contain segments ("seg", label, id, nonempty)
                               and reversed segments ("rev", seg)
  ("box", v) ("moved",)
"""
INF = 10 ** 40

INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[f"u{_b}"] = (0, 2 ** _b - 1)
    INT_RANGE[f"i{_b}"] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]

CHAR_DOM = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Undecided(Exception):
    """the construct is outside what the analysis can judge"""


class Infeasible(Exception):
    pass


class Fork(Exception):
    """re-run the current step in each of the given refinements"""

    def __init__(self, alts):
        self.alts = alts


_ctr = [0]


def fresh_id():
    _ctr[0] += 1
    return _ctr[0]


def is_atom(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in ("s", "seg")


def label_of(v):
    if isinstance(v, tuple):
        if v[0] == "s":
            return v[1]
        if v[0] == "t":
            return v[3]
        if v[0] == "seg":
            return v[1]
    return None


# ---- linear integers ------------------------------------------------------------------------------

def lin_parts(v):
    if isinstance(v, int):
        return v, {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def lin_make(c, d):
    d = {k: n for k, n in d.items() if n != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, n), = d.items()
        if n == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


def lin_add(a, b, k=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for t, n in db.items():
        da[t] = da.get(t, 0) + k * n
    return lin_make(ca + k * cb, da)


def lin_scale(a, k):
    c, d = lin_parts(a)
    return lin_make(c * k, {t: n * k for t, n in d.items()})


def seg_len(seg):
    return ("t", "len", (seg,), "int:usize")


def items_len(items):
    n = 0
    for i in items:
        if isinstance(i, tuple) and i and i[0] in ("seg", "rev"):
            s = i[1] if i[0] == "rev" else i
            n = lin_add(n, seg_len(s))
        else:
            n = lin_add(n, 1)
    return n


def hexv(items):
    """value of a digit sequence, most significant first"""
    items = tuple(items)
    if not items:
        return 0
    return ("t", "digits", (("seq", "digits", items),), "int:u32")


# ---- substitution ---------------------------------------------------------------------------------

class Subst:
    def __init__(self, m):
        # segs map to ("splice", items)
        self.m = m
        self.memo = {}

    def __call__(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        r = self.memo.get(v)
        if r is not None:
            return r
        r = self._go(v)
        self.memo[v] = r
        return r

    def _go(self, v):
        if v in self.m:
            return self.m[v]
        k = v[0]
        if k == "seq":
            items = []
            changed = False
            for i in v[2]:
                if isinstance(i, tuple) and i and i[0] == "seg":
                    if i in self.m:
                        items.extend(self.m[i][1])
                        changed = True
                    else:
                        items.append(i)
                elif isinstance(i, tuple) and i and i[0] == "rev":
                    if i[1] in self.m:
                        for x in reversed(self.m[i[1]][1]):
                            if isinstance(x, tuple) and x and x[0] == "seg":
                                x = ("rev", x)
                            elif isinstance(x, tuple) and x and x[0] == "rev":
                                x = x[1]
                            items.append(x)
                        changed = True
                    else:
                        items.append(i)
                else:
                    n = self(i)
                    changed = changed or n is not i
                    items.append(n)
            return ("seq", v[1], tuple(items)) if changed else v
        if k == "lin":
            acc = v[1]
            for t, n in v[2]:
                acc = lin_add(acc, self(t), n)
            return acc
        if k == "t":
            if v[1] == "len":
                s = v[2][0]
                if s in self.m:
                    return items_len(self.m[s][1])
                return v
            args = tuple(self(a) for a in v[2])
            if args == v[2]:
                return v
            if v[1] == "digits" and not args[0][2]:
                return 0
            return ("t", v[1], args, v[3])
        if k == "s" or k == "seg":
            return v
        out = []
        changed = False
        for x in v:
            n = self(x) if isinstance(x, tuple) else x
            changed = changed or n is not x
            out.append(n)
        return tuple(out) if changed else v


_atom_memo = {}


def atoms(v):
    """atoms in order of occurrence, with repetition"""
    if not isinstance(v, tuple) or not v:
        return ()
    r = _atom_memo.get(v)
    if r is not None:
        return r
    if v[0] in ("s", "seg"):
        r = (v,)
    else:
        out = []
        for x in v:
            if isinstance(x, tuple):
                out.extend(atoms(x))
        r = tuple(out)
    if len(_atom_memo) > 400000:
        _atom_memo.clear()
    _atom_memo[v] = r
    return r


_seq_memo = {}


def seqs_in(v):
    if not isinstance(v, tuple) or not v:
        return ()
    r = _seq_memo.get(v)
    if r is not None:
        return r
    out = []
    if v[0] == "seq":
        out.append(v)
    if v[0] not in ("s", "seg"):
        for x in v:
            if isinstance(x, tuple):
                out.extend(seqs_in(x))
    r = tuple(out)
    if len(_seq_memo) > 400000:
        _seq_memo.clear()
    _seq_memo[v] = r
    return r


# ---- domains --------------------------------------------------------------------------------------

def dom_inter(a, b):
    out = []
    for l1, r1 in a:
        for l2, r2 in b:
            l, r = max(l1, l2), min(r1, r2)
            if l <= r:
                out.append((l, r))
    return tuple(sorted(out))


def dom_union(a, b):
    xs = sorted(list(a) + list(b))
    out = []
    for l, r in xs:
        if out and l <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], r))
        else:
            out.append((l, r))
    return tuple(out)


def dom_minus(a, b):
    out = list(a)
    for l2, r2 in b:
        nxt = []
        for l, r in out:
            if r2 < l or l2 > r:
                nxt.append((l, r))
            else:
                if l < l2:
                    nxt.append((l, l2 - 1))
                if r > r2:
                    nxt.append((r2 + 1, r))
        out = nxt
    return tuple(out)


def dom_shift(d, k):
    return tuple((l + k, r + k) for l, r in d)


def dom_neg(d):
    return tuple(sorted((-r, -l) for l, r in d))


def default_dom(label):
    if label is None:
        return ((-INF, INF),)
    if label == "char":
        return CHAR_DOM
    if label == "bool":
        return ((0, 1),)
    if label.startswith("int:"):
        return (INT_RANGE[label[4:]],)
    return ((-INF, INF),)


def tuple_(*xs):
    return ("agg", "tuple", 0, tuple(xs))


UNIT = ("agg", "tuple", 0, ())
OPTION = "core::option::Option"
RESULT = "core::result::Result"


def some(v):
    return ("agg", OPTION, 1, (v,))


NONE = ("agg", OPTION, 0, ())


def ok(v):
    return ("agg", RESULT, 0, (v,))


def err(v):
    return ("agg", RESULT, 1, (v,))


def seq(kind, items=()):
    return ("seq", kind, tuple(items))


def show(v, depth=0):
    if isinstance(v, int):
        return str(v)
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    k = v[0]
    if k == "s":
        return f"{v[1].split('::')[-1]}#{v[2]}"
    if k == "seg":
        return f"{v[1].split('::')[-1]}*{v[2]}{'+' if v[3] else ''}"
    if k == "rev":
        return "rev(" + show(v[1]) + ")"
    if k == "seq":
        return "[" + ", ".join(show(x) for x in v[2]) + "]"
    if k == "t":
        return f"{v[1]}(" + ", ".join(show(x) for x in v[2]) + ")"
    if k == "lin":
        return "+".join([str(v[1])] + [f"{n}*{show(t)}" for t, n in v[2]])
    if k == "agg":
        n = v[1].split("::")[-1]
        if n == "tuple":
            return "(" + ", ".join(show(x) for x in v[3]) + ")"
        return f"{n}.{v[2]}(" + ", ".join(show(x) for x in v[3]) + ")"
    if k == "vref":
        return "&" + show(v[1])
    if k == "mref":
        return f"&mut {v[1]}{list(v[2]) if v[2] else ''}"
    if k == "box":
        return "Box(" + show(v[1]) + ")"
    if k == "clo":
        return "closure " + v[1].split("::")[-2]
    return str(v)
