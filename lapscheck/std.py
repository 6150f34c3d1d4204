"""Meaning of the standard-library primitives the analysed code calls."""
from . import mir
from .values import *
from .engine import builtin, CALL, STD, LABEL_TY, ty_label, Engine, _int_size

CF = "core::ops::control_flow::ControlFlow"
ITER = "@iter"


def place_of(E, st, v):
    """the place an exclusive reference denotes (through nested references)"""
    while True:
        if v[0] != "mref":
            raise Undecided(f"mutation through {show(v)}")
        loc = ("place", v[1], v[2])
        x = E.rd(st, loc)
        if x and x[0] == "mref":
            v = x
            continue
        return loc, x


def owned(E, st, v):
    return E.deref(st, v)


def need_seq(E, st, v):
    v = E.deref(st, v)
    while v and v[0] == "box":
        v = E.deref(st, v[1])
    if v and v[0] == "seq":
        return v
    if v and v[0] == "agg" and v[1] in ("core::mem::manually_drop::ManuallyDrop",):
        return need_seq(E, st, v[3][0])
    raise Undecided(f"sequence operation on {show(v)}")


def isseg(x):
    return isinstance(x, tuple) and len(x) > 0 and x[0] in ("seg", "rev")


def pop_side(E, st, items, side):
    """(element, rest) from one end or None when empty; forks on segments"""
    if not items:
        return None
    it = items[0] if side == "front" else items[-1]
    if isseg(it):
        raise Fork(E.open_seg(st, it, side))
    return (it, items[1:]) if side == "front" else (it, items[:-1])


# ---- ? operator -----------------------------------------------------------------------------------

@builtin("std::ops::Try::branch")
def try_branch(E, st, c):
    v = c.args[0]
    E.discr(st, v)
    if v[1] == OPTION:
        return ("agg", CF, 0, (v[3][0],)) if v[2] == 1 else ("agg", CF, 1, (NONE,))
    if v[1] == RESULT:
        return ("agg", CF, 0, (v[3][0],)) if v[2] == 0 else ("agg", CF, 1, (v,))
    raise Undecided(f"? on {show(v)}")


@builtin("std::ops::Try::from_output")
def try_output(E, st, c):
    t = c.targs[0]
    if t[0] == "adt" and t[1] == OPTION:
        return some(c.args[0])
    return ok(c.args[0])


@builtin("std::ops::FromResidual::from_residual")
def from_residual(E, st, c):
    v = c.args[0]
    E.discr(st, v)
    if v[1] == OPTION:
        return NONE
    e = v[3][0]
    # From::from on the error; identity when the types agree
    if c.fnty:
        t = [x for x in c.fnty[2] if isinstance(x, tuple)]
        if len(t) == 2 and t[0][0] == "adt" and t[1][0] == "adt" and t[0][1] == RESULT and t[0][2][1] != t[1][2][1]:
            imp, sub = E.find_impl("core::convert::From", (t[0][2][1], t[1][2][1]))
            if imp is None:
                raise Undecided("error conversion")
            key = imp["imap"].get("core::convert::From::from")
            E.push(st, E.prog.bodies[key], sub, [e], c.dest, c.target, (_wrap_err,))
            return CALL
    return err(e)


def _wrap_err(E, st, v):
    return err(v)


# ---- clone / borrow / conversions -----------------------------------------------------------------

@builtin("std::clone::Clone::clone")
def clone(E, st, c):
    v = E.deref(st, c.args[0])
    if c.targs and c.targs[0][0] == "ref":
        # cloning a reference
        x = c.args[0]
        x = x[1] if x[0] == "vref" else E.rd(st, ("place", x[1], x[2]))
        return x
    h = E.hooks.get("clone")
    if h is not None:
        r = h(E, st, c, v)
        if r is not NotImplemented:
            return r
    if isinstance(v, tuple) and v and v[0] == "agg":
        imp, sub = E.impl_of_value(st, "core::clone::Clone", v)
        if imp is not None and not imp.get("derived") and not v[1].startswith("models::"):
            return NotImplemented
    _no_excl(v)
    return v


def _no_excl(v):
    if isinstance(v, tuple) and v:
        if v[0] == "mref":
            raise Undecided("clone of an exclusive reference")
        if v[0] in ("s", "seg"):
            return
        for x in v:
            if isinstance(x, tuple):
                _no_excl(x)


@builtin("std::convert::Into::into", "std::convert::From::from")
def conv(E, st, c):
    v = c.args[0]
    if c.npath.endswith("From::from"):
        if len(c.targs) < 2:
            return NotImplemented
        dst, src = c.targs[0], c.targs[1]
    else:
        src, dst = c.targs[0], c.targs[1]
    if src == dst:
        return v
    imp, sub = E.find_impl("core::convert::From", (dst, src))
    if imp is not None:
        key = imp["imap"].get("core::convert::From::from")
        h = E.hooks.get(key)
        if h is not None:
            r = h(E, st, c)
            if r is not NotImplemented:
                return r
        E.push(st, E.prog.bodies[key], sub, [v], c.dest, c.target)
        return CALL
    if c.npath.endswith("Into::into"):
        imp, sub = E.find_impl("core::convert::Into", (src, dst))
        if imp is not None and imp["self"][0] != "param":
            key = imp["imap"].get("core::convert::Into::into")
            E.push(st, E.prog.bodies[key], sub, [v], c.dest, c.target)
            return CALL
    if src[0] in ("int", "char", "bool") and dst[0] in ("int", "char"):
        return v
    if src[0] == "adt" and src[1].endswith("::NonZero") and src[2][0] == dst:
        return v
    if dst[0] == "adt" and dst[1] in ("alloc::string::String", "alloc::vec::Vec",
                                      "alloc::collections::vec_deque::VecDeque"):
        x = need_seq(E, st, v)
        kind = {"alloc::string::String": "string", "alloc::vec::Vec": "vec"}.get(dst[1], "deque")
        return ("seq", kind, x[2])
    if dst[0] == "adt" and dst[1] == "alloc::boxed::Box":
        return ("box", E.deref(st, v) if src[0] == "ref" else v)
    if dst[0] == "adt" and dst[1] == OPTION and dst[2][0] == src:
        return some(v)
    h = E.hooks.get("opaque-conversion")
    if h is not None:
        r = h(E, st, c, src, dst)
        if r is not NotImplemented:
            return r
    raise Undecided(f"conversion {mir.ty_str(src)} -> {mir.ty_str(dst)}")


@builtin("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def try_conv(E, st, c):
    v = c.args[0]
    if c.npath.endswith("try_from"):
        dst, src = c.targs[0], c.targs[1]
    else:
        src, dst = c.targs[0], c.targs[1]
    if src[0] in ("int", "char", "bool") and dst[0] in ("int", "char"):
        d = CHAR_DOM if dst == ("char",) else (INT_RANGE[dst[1]],)
        return in_dom(E, st, v, d, ok(v), lambda: err(("s", "TryFromError", fresh_id())))
    imp, sub = E.find_impl("core::convert::TryFrom", (dst, src))
    if imp is not None and imp["crate"] != "models":
        body = E.prog.bodies.get(imp["imap"].get("core::convert::TryFrom::try_from"))
        if body is not None:
            E.push(st, body, sub, c.args, c.dest, c.target)
            return CALL
    raise Undecided("try_from")


def in_dom(E, st, v, d, yes, no):
    if isinstance(v, int):
        return yes if any(l <= v <= r for l, r in d) else no()
    if v[0] == "lin":
        for l, r in d:
            if E.decide(st, E.cmp(st, "le", l, v)) and E.decide(st, E.cmp(st, "le", v, r)):
                return yes
        return no()
    cur = E.dom_of(st, v)
    a = dom_inter(cur, d)
    b = dom_minus(cur, d)
    if not b:
        return yes
    if not a:
        return no()
    raise Fork([[("dom", v, a)], [("dom", v, b)]])


@builtin("std::borrow::ToOwned::to_owned", "std::string::ToString::to_string", "std::slice::to_vec",
         "std::str::to_owned", "std::str::to_string", "std::string::String::from", "std::slice::into_vec",
         "std::vec::Vec::into_boxed_slice", "std::string::String::into_boxed_str", "std::boxed::Box::into_vec")
def to_owned(E, st, c):
    v = E.deref(st, c.args[0])
    if isinstance(v, tuple) and v and v[0] == "box":
        v = v[1]
    if v and v[0] == "seq":
        kind = "string" if v[1] in ("str", "string") else "vec"
        return ("seq", kind, v[2])
    if c.npath.endswith("to_string"):
        if isinstance(v, int) and c.targs and c.targs[0] == ("char",):
            return ("seq", "string", (v,))
        if isinstance(v, tuple) and label_of(v) == "char":
            return ("seq", "string", (v,))
        return NotImplemented
    if v and v[0] in ("agg", "s"):
        return v
    return NotImplemented


@builtin("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
         "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
         "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_str",
         "std::string::String::as_mut_str", "std::boxed::Box::as_ref", "std::boxed::Box::as_mut",
         "std::sync::Arc::as_ref", "std::slice::as_slice")
def deref_(E, st, c):
    v = c.args[0]
    inner = E.deref(st, v)
    if inner and inner[0] == "seq":
        if v[0] == "vref":
            return ("vref", inner)
        loc, _ = place_of(E, st, v)
        return ("mref", loc[1], loc[2])
    if inner and inner[0] == "box":
        if v[0] == "vref":
            return ("vref", inner[1])
        loc, _ = place_of(E, st, v)
        return ("mref", loc[1], loc[2] + ("box",))
    if c.npath in ("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow",
                   "std::borrow::BorrowMut::borrow_mut", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
        return NotImplemented
    return ("vref", inner)


@builtin("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new")
def box_new(E, st, c):
    return ("box", c.args[0])


@builtin("std::boxed::Box::new_uninit")
def box_uninit(E, st, c):
    return ("box", ("uninit", UNIT))


@builtin("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(E, st, c):
    v = c.args[0]
    if v[0] == "box" and v[1][0] == "uninit" and v[1][1][0] == "seq":
        return ("seq", "vec", v[1][1][2])
    raise Undecided("vec! initialisation")


@builtin("std::mem::replace")
def mem_replace(E, st, c):
    v = c.args[0]
    loc = ("place", v[1], v[2])
    old = E.rd(st, loc)
    E.wr(st, loc, c.args[1])
    return old


@builtin("std::mem::swap")
def mem_swap(E, st, c):
    a, b = c.args
    la, lb = ("place", a[1], a[2]), ("place", b[1], b[2])
    x, y = E.rd(st, la), E.rd(st, lb)
    E.wr(st, la, y)
    E.wr(st, lb, x)
    return UNIT


@builtin("std::mem::take")
def mem_take(E, st, c):
    v = c.args[0]
    loc = ("place", v[1], v[2])
    old = E.rd(st, loc)
    if old and old[0] == "seq":
        E.wr(st, loc, ("seq", old[1], ()))
        return old
    if old and old[0] == "agg" and old[1] == OPTION:
        E.wr(st, loc, NONE)
        return old
    if isinstance(old, int):
        E.wr(st, loc, 0)
        return old
    return NotImplemented


@builtin("std::mem::drop", "std::mem::forget")
def mem_drop(E, st, c):
    v = c.args[0]
    if c.npath == "std::mem::drop" and E.drop_impl(v):
        d = len(st.frames)
        imp = E.drop_impl(v)
        E.push(st, E.prog.bodies[imp], {}, [("mref", (d, "env"), ())], c.dest, c.target)
        st.mem[(d, "env")] = v
        return CALL
    return UNIT


@builtin("std::num::nonzero::NonZero::get", "std::num::NonZero::get", "std::hint::must_use", "std::convert::identity", "std::hint::black_box", "std::iter::Iterator::by_ref",
         "std::iter::Iterator::fuse")
def ident(E, st, c):
    return c.args[0]


@builtin("std::default::Default::default")
def default(E, st, c):
    t = c.targs[0]
    if t[0] in ("int", "bool", "char"):
        return 0
    if t[0] == "tuple" and not t[1]:
        return UNIT
    if t[0] == "adt" and t[1] == OPTION:
        return NONE
    if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String"):
        return ("seq", "vec" if "vec" in t[1] else "string", ())
    if t[0] == "adt" and t[1] == "alloc::collections::vec_deque::VecDeque":
        return ("seq", "deque", ())
    if t[0] == "adt" and t[1] == "core::marker::PhantomData":
        return ("agg", t[1], 0, ())
    return NotImplemented


# ---- comparison -----------------------------------------------------------------------------------

def structural_eq(E, st, a, b):
    """int/term, or None if not structural"""
    a, b = E.deref(st, a) if isinstance(a, tuple) and a and a[0] in ("vref", "mref") else a, \
        E.deref(st, b) if isinstance(b, tuple) and b and b[0] in ("vref", "mref") else b
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    if a == b and not isinstance(a, int):
        return 1
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("s",) and a[1] == b[1] and a[1] in E.distinct:
        return 0
    if (isinstance(a, int) or E._numeric(a)) and (isinstance(b, int) or E._numeric(b)):
        return E.cmp(st, "eq", a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and a[0] == "s" and b and b[0] == "agg" or b and b[0] == "s" and a and a[0] == "agg":
            v = a if a[0] == "s" else b
            t = LABEL_TY.get(v[1])
            if t and t[0] == "adt":
                raise Fork(E.expand(st, v))
            return None
        if a and b and a[0] == "agg" and b[0] == "agg":
            if a[1] != b[1] and not (a[1] == "tuple" or b[1] == "tuple"):
                return None
            if a[2] != b[2]:
                return 0
            r = 1
            for x, y in zip(a[3], b[3]):
                e = structural_eq(E, st, x, y)
                if e is None:
                    return None
                r = E.b_and(st, r, e)
            return r
        if a and b and a[0] == "box" and b[0] == "box":
            return structural_eq(E, st, a[1], b[1])
        if a and b and a[0] == "seq" and b[0] == "seq":
            xs, ys = a[2], b[2]
            if any(isseg(i) for i in xs + ys):
                known, other = (xs, ys) if not any(isseg(i) for i in xs) else (ys, xs)
                if any(isseg(i) for i in known):
                    return ("t", "seqeq", (a, b), "bool")
                ln = items_len(other)
                t = E.cmp(st, "eq", ln, len(known))
                if E.truth(st, t) is None:
                    raise Fork([[("is", t, 1)], [("is", t, 0)]])
                if E.truth(st, t) == 0:
                    return 0
                for it in other:
                    if isseg(it):
                        raise Fork(E.open_seg(st, it, "front"))
            if len(xs) != len(ys):
                return 0
            r = 1
            for x, y in zip(xs, ys):
                e = structural_eq(E, st, x, y)
                if e is None:
                    return None
                r = E.b_and(st, r, e)
            return r
    return None


@builtin("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def partial_eq(E, st, c):
    neg = c.npath.endswith("::ne")
    ts = c.targs
    h = E.hooks.get("partial_eq")
    if h is not None:
        r = h(E, st, c)
        if r is not NotImplemented:
            return E.negate(st, r) if neg else r
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    if ts:
        key = "core::cmp::PartialEq"
        t0 = ts[0]
        imp, sub = E.find_impl(key, ts if len(ts) > 1 else (t0, t0))
        if imp is None and t0[0] in ("param", "alias") and isinstance(a, tuple) and a and a[0] == "agg":
            # the type is known from the value only
            of = [i for i in E.prog.impls_by_trait.get(key, [])
                  if i["self"][0] == "adt" and i["self"][1] == a[1] and i["crate"] != "models"]
            same = isinstance(b, tuple) and b and b[0] == "agg" and b[1] == a[1]
            of = [i for i in of if (len(i["args"]) < 2 or i["args"][1] == i["self"]) == same]
            if len(of) == 1:
                imp, sub = of[0], {}
        if imp is not None and imp["self"][0] == "adt" and not imp.get("derived") and imp["crate"] != "models":
            body = E.prog.bodies.get(imp["imap"].get("core::cmp::PartialEq::eq"))
            if body is not None:
                E.push(st, body, sub, [("vref", a), ("vref", b)], c.dest, c.target, (_neg,) if neg else None)
                return CALL
    r = structural_eq(E, st, a, b)
    if r is None:
        r = ("t", "eq", (a, b), "bool")
    return E.negate(st, r) if neg else r


def _neg(E, st, v):
    return E.negate(st, v)


@builtin("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt",
         "std::cmp::PartialOrd::ge")
def partial_ord(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    if (isinstance(a, int) or E._numeric(a)) and (isinstance(b, int) or E._numeric(b)):
        return E.cmp(st, c.npath.rsplit("::", 1)[1], a, b)
    r = compare(E, st, a, b)
    return int({"lt": r == 0, "le": r <= 1, "gt": r == 2, "ge": r >= 1}[c.npath.rsplit("::", 1)[1]])


def compare(E, st, a, b):
    """0 less, 1 equal, 2 greater, in the order of the standard types"""
    a, b = E.deref(st, a), E.deref(st, b)
    if (isinstance(a, int) or E._numeric(a)) and (isinstance(b, int) or E._numeric(b)):
        if E.decide(st, E.cmp(st, "lt", a, b)):
            return 0
        return 1 if E.decide(st, E.cmp(st, "eq", a, b)) else 2
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "box":
            return compare(E, st, a[1], b[1])
        if a[0] == "agg" and a[1] == b[1] and a[1] in ("tuple", "core::option::Option", "core::cmp::Reverse"):
            if a[1] == "core::cmp::Reverse":
                return 2 - compare(E, st, a[3][0], b[3][0])
            if a[2] != b[2]:
                return 0 if a[2] < b[2] else 2
            for x, y in zip(a[3], b[3]):
                r = compare(E, st, x, y)
                if r != 1:
                    return r
            return 1
        if a[0] == "seq" and not any(isseg(x) for x in a[2] + b[2]):
            for x, y in zip(a[2], b[2]):
                r = compare(E, st, x, y)
                if r != 1:
                    return r
            return (len(a[2]) > len(b[2])) - (len(a[2]) < len(b[2])) + 1
    raise Undecided("ordering of non-scalars")


@builtin("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def ord_cmp(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    v = ("agg", "core::cmp::Ordering", compare(E, st, a, b), ())
    return some(v) if c.npath.endswith("partial_cmp") else v


@builtin("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def cmp_max(E, st, c):
    a, b = c.args
    if E._numeric(a) and E._numeric(b):
        lt = E.decide(st, E.cmp(st, "lt", b, a))
        if c.npath.endswith("max"):
            return a if lt else b
        return b if lt else a
    return NotImplemented


# ---- integers and chars ---------------------------------------------------------------------------

def _arg_int_ty(E, c):
    # inherent integer methods: the type is not in the generic args; look at the path
    d = E.prog.defs.get(c.key)
    t = d.get("impl_self") if d else None
    return t if t and t[0] == "int" else None


def raw(E, st, op, args, t):
    """the mathematical result, or None when it has no linear form"""
    if op == "neg":
        return lin_scale(args[0], -1)
    a, b = args[:2]
    if op == "add":
        return lin_add(a, b)
    if op == "sub":
        return lin_add(a, b, -1)
    if op == "mul":
        if isinstance(b, int):
            return lin_scale(a, b)
        if isinstance(a, int):
            return lin_scale(b, a)
        return None
    if isinstance(a, int) and isinstance(b, int):
        if op == "pow":
            return a ** b
        if op in ("div", "rem", "div_euclid", "rem_euclid") and b != 0 and a >= 0 and b > 0:
            return a // b if op.startswith("div") else a % b
        if op == "shl":
            return a << b if b < 8 * _int_size(t) else None
        if op == "shr":
            return a >> b if b < 8 * _int_size(t) else None
    return None


def wrap(E, st, r, t):
    """r reduced into the type's range, telling the windows it can be in apart"""
    lo, hi = INT_RANGE[t[1]]
    m = hi - lo + 1
    l, h = E.range_of(st, r)
    k0, k1 = (l - lo) // m, (h - lo) // m
    if isinstance(r, int):
        return r - k0 * m
    if k0 == k1:
        return lin_add(r, -k0 * m)
    if k1 - k0 == 1:
        return lin_add(r, -k0 * m) if E.decide(st, E.cmp(st, "le", r, hi + k0 * m)) else lin_add(r, -k1 * m)
    if _fits(E, st, r, t):
        return r
    w = ("s", ty_label(t), fresh_id())
    q = ("s", "int:i128", fresh_id())
    st.dom[q] = ((max(k0, -2 ** 100), min(k1, 2 ** 100)),)
    d = lin_add(lin_add(r, w, -1), q, -m)
    st.le = st.le | {d, lin_scale(d, -1)}
    return w


def _fits(E, st, r, t):
    lo, hi = INT_RANGE[t[1]]
    l, h = E.range_of(st, r)
    if lo <= l and h <= hi:
        return 1
    if h < lo or l > hi:
        return 0
    return E.decide(st, E.cmp(st, "le", r, hi)) and E.decide(st, E.cmp(st, "le", lo, r))


@builtin(*["std::num::" + f + "_" + o for f in ("checked", "wrapping", "saturating", "overflowing", "unchecked")
           for o in ("add", "sub", "mul", "neg", "pow", "div", "rem", "shl", "shr", "div_euclid", "rem_euclid")])
def arith(E, st, c):
    fam, op = c.npath.rsplit("::", 1)[1].split("_", 1)
    t = _arg_int_ty(E, c)
    if t is None:
        raise Undecided("arithmetic on " + c.npath)
    if fam == "checked" and op in ("div", "rem", "div_euclid", "rem_euclid") and \
            E.decide(st, E.cmp(st, "eq", c.args[1], 0)):
        return NONE
    r = raw(E, st, op, c.args, t)
    if r is None:
        v = ("t", op, tuple(c.args), ty_label(t))
        if fam == "wrapping":
            return v
        raise Undecided("result of " + c.npath)
    lo, hi = INT_RANGE[t[1]]
    if fam == "checked":
        k = E.hooks.get("checked")
        if k:
            l, h = E.range_of(st, r)
            if not (lo <= l and h <= hi) and not (h < lo or l > hi):
                x = k(E, st, c, r, lo, hi)
                if x is not NotImplemented:
                    return x
        return some(r) if _fits(E, st, r, t) else NONE
    if fam == "unchecked":
        return r if _fits(E, st, r, t) else unsound(E, st, c, f"{show(r)} overflows")
    if fam == "saturating":
        if _fits(E, st, r, t):
            return r
        return lo if E.decide(st, E.cmp(st, "lt", r, lo)) else hi
    w = wrap(E, st, r, t)
    if fam == "wrapping":
        return w
    return tuple_(w, 0 if _fits(E, st, r, t) else 1)


def _prim(t):
    while t[0] == "ref":
        t = t[-1] if isinstance(t[-1], tuple) else t[1]
    return t if t[0] == "int" else None


@builtin("std::ops::Add::add", "std::ops::Sub::sub", "std::ops::Mul::mul")
def op_trait(E, st, c):
    """arithmetic through the operator traits, as on references"""
    t = _prim(c.targs[0])
    if t is None:
        return NotImplemented
    a, b = (E.deref(st, x) for x in c.args)
    op = c.npath.rsplit("::", 1)[1]
    r = raw(E, st, op, [a, b], t)
    if r is None:
        raise Undecided("result of " + c.npath)
    if not _fits(E, st, r, t) if E.strict else E.range_of(st, r)[0] > INT_RANGE[t[1]][1]:
        return panic(E, st, c)
    if not E.strict:
        E._assume_le(st, lin_add(INT_RANGE[t[1]][0], r, -1))
        E._assume_le(st, lin_add(r, INT_RANGE[t[1]][1], -1))
    return r


@builtin("std::num::abs_diff")
def abs_diff(E, st, c):
    a, b = c.args
    return lin_add(a, b, -1) if E.decide(st, E.cmp(st, "le", b, a)) else lin_add(b, a, -1)


@builtin("std::num::ilog2")
def ilog2(E, st, c):
    v = c.args[0]
    if isinstance(v, int) and v > 0:
        return v.bit_length() - 1
    return ("t", "ilog2", (v,), "int:u32")


@builtin("std::char::methods::to_ascii_lowercase", "std::num::to_ascii_lowercase",
         "std::char::methods::to_ascii_uppercase", "std::num::to_ascii_uppercase")
def to_ascii_case(E, st, c):
    v = E.deref(st, c.args[0]) if isinstance(c.args[0], tuple) else c.args[0]
    low = c.npath.endswith("lowercase")
    d = ((65, 90),) if low else ((97, 122),)
    return in_dom(E, st, v, d, lin_add(v, 32 if low else -32), lambda: v)


@builtin("std::char::methods::eq_ignore_ascii_case", "std::num::eq_ignore_ascii_case")
def eq_ignore_ascii_case(E, st, c):
    xs = []
    for a in c.args:
        v = E.deref(st, a) if isinstance(a, tuple) else a
        xs.append(in_dom(E, st, v, ((65, 90),), lin_add(v, 32), lambda v=v: v))
    return E.cmp(st, "eq", xs[0], xs[1])


CLASSES = {
    "is_ascii_digit": ((48, 57),),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_lowercase": ((97, 122),),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii": ((0, 127),),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_control": ((0, 31), (127, 127)),
    "is_ascii_graphic": ((33, 126),),
    "is_control": ((0, 31), (127, 159)),
}


def _class(E, st, c):
    v = E.deref(st, c.args[0]) if isinstance(c.args[0], tuple) else c.args[0]
    d = CLASSES[c.npath.rsplit("::", 1)[1]]
    return in_dom(E, st, v, d, 1, lambda: 0)


for _n in CLASSES:
    STD["std::char::methods::" + _n] = _class
    STD["std::num::" + _n] = _class


def digit_dom(radix):
    d = [(48, min(57, 47 + radix))]
    if radix > 10:
        d += [(65, 54 + radix), (97, 86 + radix)]
    return tuple(d)


@builtin("std::char::methods::is_digit")
def is_digit(E, st, c):
    v = c.args[0]
    r = c.args[1]
    if not isinstance(r, int):
        raise Undecided("is_digit with unknown radix")
    if not 2 <= r <= 36:
        raise Undecided("is_digit radix")
    return in_dom(E, st, v, digit_dom(r), 1, lambda: 0)


@builtin("std::char::methods::to_digit")
def to_digit(E, st, c):
    v, r = c.args
    if not isinstance(r, int):
        raise Undecided("to_digit with unknown radix")
    if isinstance(v, int):
        ch = chr(v)
        d = int(ch, 36) if ch.isascii() and ch.isalnum() else 99
        return some(d) if d < r else NONE
    d = ("t", "digit", (v,), "int:u32")
    x = in_dom(E, st, v, digit_dom(r), some(d), lambda: NONE)
    if x != NONE:
        E.restrict(st, d, ((0, r - 1),))
    return x


@builtin("std::char::methods::from_digit")
def from_digit(E, st, c):
    v, r = c.args
    if isinstance(v, int) and isinstance(r, int):
        return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[v])) if v < r else NONE
    raise Undecided("from_digit")


@builtin("std::char::methods::from_u32")
def from_u32(E, st, c):
    v = c.args[0]
    h = E.hooks.get("from_u32")
    if h is not None:
        r = h(E, st, c)
        if r is not NotImplemented:
            return r
    return in_dom(E, st, v, CHAR_DOM, some(v), lambda: NONE)


@builtin("std::char::methods::from_u32_unchecked")
def from_u32_unchecked(E, st, c):
    v = c.args[0]
    if in_dom(E, st, v, CHAR_DOM, True, lambda: False):
        return v
    return unsound(E, st, c, f"{show(v)} is not a Unicode scalar value")


def unsound(E, st, c, why):
    E.misused(st, c, why)
    if E.on_panic:
        E.on_panic(E, st, f"{c.npath} at line {c.line} is undefined: {why}")
    raise Infeasible()


@builtin("std::char::methods::is_whitespace", "std::char::methods::is_alphabetic",
         "std::char::methods::is_alphanumeric", "std::char::methods::is_numeric",
         "std::char::methods::is_uppercase", "std::char::methods::is_lowercase")
def uni_class(E, st, c):
    return ("t", c.npath.rsplit("::", 1)[1], (c.args[0],), "bool")


@builtin("std::char::methods::len_utf8")
def len_utf8(E, st, c):
    return utf8_width(E, st, c.args[0])


def utf8_width(E, st, v):
    """number of bytes of a character, as a term when its class is open"""
    if isinstance(v, int):
        return len(chr(v).encode("utf-8", "surrogatepass"))
    d = E.dom_of(st, v)
    lo, hi = d[0][0], d[-1][1]
    for n, top in enumerate((0x7F, 0x7FF, 0xFFFF, 0x10FFFF)):
        if lo <= top:
            if hi <= top:
                return n + 1
            break
    t = ("t", "len_utf8", (v,), "int:usize")
    E.restrict(st, t, ((1, 4),))
    return t


# ---- option helpers that must panic ---------------------------------------------------------------

@builtin("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap",
         "std::result::Result::expect", "std::option::Option::unwrap_unchecked",
         "std::result::Result::unwrap_unchecked")
def unwrap(E, st, c):
    v = c.args[0]
    E.discr(st, v)
    good = v[2] == (1 if v[1] == OPTION else 0)
    if good:
        return v[3][0]
    if c.npath.endswith("_unchecked"):
        return unsound(E, st, c, f"{show(v)} has no value")
    return panic(E, st, c)


@builtin("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def unwrap_or(E, st, c):
    v = c.args[0]
    E.discr(st, v)
    good = v[2] == (1 if v[1] == OPTION else 0)
    return v[3][0] if good else c.args[1]


@builtin("std::panicking::panic", "std::panicking::panic_fmt", "std::rt::begin_panic",
         "std::panicking::unreachable_display", "std::panicking::panic_display", "std::rt::panic_fmt",
         "std::panicking::panic_explicit", "std::option::unwrap_failed", "std::panicking::assert_failed",
         "std::panicking::panic_const::panic_const_async_fn_resumed", "std::panicking::unreachable_default_msg",
         "std::process::abort", "std::process::exit", "std::hint::unreachable_unchecked",
         "std::intrinsics::unreachable")
def panic(E, st, c):
    if c.npath in ("std::hint::unreachable_unchecked", "std::intrinsics::unreachable"):
        return unsound(E, st, c, "it is reached")
    if E.on_panic:
        E.on_panic(E, st, f"{c.npath} at line {c.line}")
    raise Infeasible()


# ---- calls of function values ---------------------------------------------------------------------

@builtin("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def fn_call(E, st, c):
    f, args = c.args
    if args[0] != "agg":
        raise Undecided("argument tuple")
    h = E.hooks.get("fn_call")
    if h is not None:
        r = h(E, st, c, f, args[3])
        if r is not NotImplemented:
            return r
    r = E.call_value(st, f, list(args[3]), c.dest, c.target, c.line)
    return Resume(r)


class Resume:
    """a control result produced by call_value / finish_call"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r


# ---- sequences ------------------------------------------------------------------------------------

@builtin("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def vec_new(E, st, c):
    return ("seq", "vec", ())


@builtin("std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity")
def deque_new(E, st, c):
    return ("seq", "deque", ())


@builtin("std::string::String::new", "std::string::String::with_capacity")
def string_new(E, st, c):
    return ("seq", "string", ())


@builtin("std::vec::Vec::push", "std::collections::VecDeque::push_back", "std::string::String::push")
def push_back(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    h = E.hooks.get("push")
    if h is not None:
        h(E, st, c, v, c.args[1])
        loc, v = place_of(E, st, c.args[0])
    if not v or v[0] != "seq":
        raise Undecided(f"push on {show(v)}")
    E.wr(st, loc, ("seq", v[1], v[2] + (c.args[1],)))
    return UNIT


@builtin("std::collections::VecDeque::push_front")
def push_front(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    E.wr(st, loc, ("seq", v[1], (c.args[1],) + v[2]))
    return UNIT


@builtin("std::vec::Vec::insert", "std::collections::VecDeque::insert")
def insert(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    i = c.args[1]
    items = v[2]
    if i == 0:
        items = (c.args[2],) + items
    elif i == items_len(items):
        items = items + (c.args[2],)
    elif isinstance(i, int) and not any(isseg(x) for x in items[:i]) and i <= len(items):
        items = items[:i] + (c.args[2],) + items[i:]
    else:
        raise Undecided("insert at unknown position")
    E.wr(st, loc, ("seq", v[1], items))
    return UNIT


@builtin("std::vec::Vec::pop", "std::collections::VecDeque::pop_back", "std::string::String::pop")
def pop_back(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    r = pop_side(E, st, v[2], "back")
    if r is None:
        return NONE
    E.wr(st, loc, ("seq", v[1], r[1]))
    return some(r[0])


@builtin("std::collections::VecDeque::pop_front")
def pop_front(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    r = pop_side(E, st, v[2], "front")
    if r is None:
        return NONE
    E.wr(st, loc, ("seq", v[1], r[1]))
    return some(r[0])


@builtin("std::vec::Vec::remove", "std::collections::VecDeque::remove")
def remove(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    i = c.args[1]
    if i == 0:
        r = pop_side(E, st, v[2], "front")
        if r is None:
            return NONE if "Deque" in c.npath else panic(E, st, c)
        E.wr(st, loc, ("seq", v[1], r[1]))
        return some(r[0]) if "Deque" in c.npath else r[0]
    if i == lin_add(items_len(v[2]), -1):
        r = pop_side(E, st, v[2], "back")
        if r is None:
            return NONE if "Deque" in c.npath else panic(E, st, c)
        E.wr(st, loc, ("seq", v[1], r[1]))
        return some(r[0]) if "Deque" in c.npath else r[0]
    n = E.seq_pos(st, v, i)
    x = v[2][n]
    E.wr(st, loc, ("seq", v[1], v[2][:n] + v[2][n + 1:]))
    return some(x) if "Deque" in c.npath else x


@builtin("std::vec::Vec::swap_remove")
def swap_remove(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    items = v[2]
    if any(isseg(x) for x in items) or not isinstance(c.args[1], int):
        raise Undecided("swap_remove")
    i = c.args[1]
    x = items[i]
    items = list(items)
    items[i] = items[-1]
    E.wr(st, loc, ("seq", v[1], tuple(items[:-1])))
    return x


@builtin("std::slice::swap", "std::vec::Vec::swap")
def slice_swap(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    i, j = c.args[1], c.args[2]
    if v[0] != "seq" or any(isseg(x) for x in v[2]) or not isinstance(i, int) or not isinstance(j, int):
        raise Undecided("swap")
    if max(i, j) >= len(v[2]):
        if E.on_panic:
            E.on_panic(E, st, f"{c.npath} out of bounds at line {c.line}")
        raise Infeasible()
    xs = list(v[2])
    xs[i], xs[j] = xs[j], xs[i]
    E.wr(st, loc, ("seq", v[1], tuple(xs)))
    return UNIT


@builtin("std::vec::Vec::clear", "std::collections::VecDeque::clear", "std::string::String::clear")
def clear(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    E.wr(st, loc, ("seq", v[1], ()))
    return UNIT


def split_items(E, st, items, n):
    """(the first n items, the others); n is at most their number"""
    pos = 0
    for j in range(len(items) + 1):
        if E.truth(st, E.cmp(st, "eq", pos, n)) == 1:
            return tuple(items[:j]), tuple(items[j:])
        if j < len(items):
            pos = lin_add(pos, items_len(items[j:j + 1]))
    out = []
    pos = 0
    for j, it in enumerate(items):
        if E.decide(st, E.cmp(st, "le", n, pos)):
            return tuple(out), tuple(items[j:])
        if isseg(it):
            s = it[1] if it[0] == "rev" else it
            end = lin_add(pos, seg_len(s))
            if not E.decide(st, E.cmp(st, "le", end, n)):
                a = ("seg", s[1], fresh_id(), True)
                b = ("seg", s[1], fresh_id(), True)
                first = a if it[0] == "seg" else b
                m = {s: ("splice", (a, b))}
                raise Fork([[("sub", m), ("is", E.cmp(st, "eq", lin_add(pos, seg_len(first)), Subst(m)(n)), 1)]])
            pos = end
        else:
            pos = lin_add(pos, 1)
        out.append(it)
    return tuple(out), ()


@builtin("std::vec::Vec::truncate", "std::string::String::truncate", "std::collections::VecDeque::truncate")
def truncate(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    n = c.args[1]
    if v[1] == "string" and not all(isinstance(x, int) and x < 128 for x in v[2]):
        raise Undecided("truncate of a string")
    out, _ = split_items(E, st, v[2], n)
    E.wr(st, loc, ("seq", v[1], tuple(out)))
    return UNIT


@builtin("std::vec::Vec::len", "std::collections::VecDeque::len", "std::slice::len", "std::iter::ExactSizeIterator::len")
def seq_len_(E, st, c):
    v = E.deref(st, c.args[0])
    if v and v[0] == "agg" and v[1] == ITER:
        return items_len(v[3][0][2])
    return items_len(need_seq(E, st, v)[2])


@builtin("std::str::len", "std::string::String::len")
def str_len(E, st, c):
    v = need_seq(E, st, c.args[0])
    n = 0
    for it in v[2]:
        if isinstance(it, int):
            n = lin_add(n, len(chr(it).encode("utf-8", "surrogatepass")))
        elif isseg(it):
            s = it[1] if it[0] == "rev" else it
            d = st.dom.get(s)
            if d and d[-1][1] <= 127:
                n = lin_add(n, seg_len(s))
            else:
                n = lin_add(n, ("t", "utf8len", (s,), "int:usize"))
        else:
            d = E.dom_of(st, it)
            n = lin_add(n, 1 if d[-1][1] <= 127 else ("t", "utf8len", (it,), "int:usize"))
    return n


@builtin("std::vec::Vec::is_empty", "std::collections::VecDeque::is_empty", "std::slice::is_empty",
         "std::str::is_empty", "std::string::String::is_empty")
def is_empty(E, st, c):
    v = need_seq(E, st, c.args[0])
    if not v[2]:
        return 1
    if any(not isseg(x) or (x[1] if x[0] == "rev" else x)[3] for x in v[2]):
        return 0
    return E.cmp(st, "eq", items_len(v[2]), 0)


@builtin("std::slice::first", "std::collections::VecDeque::front")
def first(E, st, c):
    v = need_seq(E, st, c.args[0])
    r = pop_side(E, st, v[2], "front")
    return some(("vref", r[0])) if r else NONE


@builtin("std::slice::last", "std::collections::VecDeque::back")
def last(E, st, c):
    v = need_seq(E, st, c.args[0])
    r = pop_side(E, st, v[2], "back")
    return some(("vref", r[0])) if r else NONE


@builtin("std::slice::last_mut", "std::slice::first_mut", "std::collections::VecDeque::front_mut",
         "std::collections::VecDeque::back_mut")
def last_mut(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    front = "first" in c.npath or "front" in c.npath
    r = pop_side(E, st, v[2], "front" if front else "back")
    if r is None:
        return NONE
    return some(("mref", loc[1], loc[2] + (("i", 0 if front else len(v[2]) - 1),)))


@builtin("std::slice::split_first", "std::slice::split_last")
def split_first(E, st, c):
    v = need_seq(E, st, c.args[0])
    side = "front" if c.npath.endswith("first") else "back"
    r = pop_side(E, st, v[2], side)
    if r is None:
        return NONE
    return some(tuple_(("vref", r[0]), ("vref", ("seq", "slice", r[1]))))


@builtin("std::slice::get", "std::collections::VecDeque::get")
def get(E, st, c):
    v = need_seq(E, st, c.args[0])
    i = c.args[1]
    if isinstance(i, tuple) and i[0] == "agg":
        if v[1] in ("str", "string"):
            raise Undecided("range get")
        lo, hi = slice_range(E, i, v)
        if E.decide(st, E.cmp(st, "lt", hi, lo)) or E.decide(st, E.cmp(st, "lt", items_len(v[2]), hi)):
            return NONE
        r = split_items(E, st, split_items(E, st, v[2], hi)[0], lo)[1]
        return some(("vref", ("seq", "slice", r)))
    if E.decide(st, E.cmp(st, "lt", i, items_len(v[2]))) == 0:
        return NONE
    n = E.seq_pos(st, v, i)
    return some(("vref", v[2][n]))


@builtin("std::ops::Index::index", "std::ops::IndexMut::index_mut", "std::slice::get_unchecked",
         "std::slice::get_unchecked_mut")
def index(E, st, c):
    src = c.args[0]
    v = E.deref(st, src)
    while v and v[0] == "box":
        v = v[1]
    if not v or v[0] != "seq":
        return NotImplemented
    i = c.args[1]
    if isinstance(i, int) or not (i[0] == "agg"):
        t = E.cmp(st, "lt", i, items_len(v[2]))
        if E.decide(st, t) == 0:
            if "get_unchecked" in c.npath:
                return unsound(E, st, c, f"index {show(i)} into {show(items_len(v[2]))} elements")
            return panic(E, st, c)
        n = E.seq_pos(st, v, i)
        if src[0] == "mref":
            loc, _ = place_of(E, st, src)
            return ("mref", loc[1], loc[2] + (("i", n),))
        return ("vref", v[2][n])
    h = E.hooks.get("slice")
    if h is not None:
        r = h(E, st, c, v, i)
        if r is not NotImplemented:
            return r
    lo, hi = slice_range(E, i, v)
    try:
        r = sub_seq(E, st, v, lo, hi, c)
    except Undecided:
        if v[1] not in ("str", "string") and E.decide(st, E.cmp(st, "lt", hi, lo)):
            return panic(E, st, c)
        raise
    return ("vref", ("seq", "str" if v[1] in ("str", "string") else "slice", r))


def slice_range(E, i, v):
    n = items_len(v[2])
    k = i[1].split("::")[-1]
    if k == "Range":
        return i[3][0], i[3][1]
    if k == "RangeFrom":
        return i[3][0], n
    if k == "RangeTo":
        return 0, i[3][0]
    if k == "RangeFull":
        return 0, n
    if k == "RangeInclusive":
        return i[3][0], lin_add(i[3][1], 1)
    if k == "RangeToInclusive":
        return 0, lin_add(i[3][0], 1)
    raise Undecided("slice range")


def item_width(E, st, v, it):
    if v[1] in ("str", "string"):
        if isinstance(it, int):
            return len(chr(it).encode("utf-8", "surrogatepass"))
        if not isseg(it):
            return utf8_width(E, st, it)
    if isseg(it):
        s = it[1] if it[0] == "rev" else it
        return seg_len(s)
    return 1


def sub_seq(E, st, v, lo, hi, c=None):
    items = list(v[2])
    n = items_len(items)
    # drop `lo` from the front
    out = items
    k = lo
    while not (isinstance(k, int) and k == 0):
        if not out:
            if isinstance(k, int):
                return panic(E, st, c)
            raise Undecided("slice start")
        it = out[0]
        if isseg(it):
            s = it[1] if it[0] == "rev" else it
            if v[1] not in ("str", "string"):
                t = E.cmp(st, "le", seg_len(s), k)
                if E.truth(st, t) == 1:
                    k = lin_add(k, seg_len(s), -1)
                    out = out[1:]
                    continue
            if isinstance(k, int):
                raise Fork(E.open_seg(st, it, "front"))
            if v[1] not in ("str", "string"):
                return split_sub(E, st, items, lo, hi, c)
            raise Undecided("slice start inside a summary segment")
        w = item_width(E, st, v, it)
        if not (isinstance(k, int) and isinstance(w, int)) and k != w and v[1] in ("str", "string") \
                and E.truth(st, E.cmp(st, "le", w, k)) != 1:
            raise Undecided("slice start relative to a character")
        k = lin_add(k, w, -1)
        if isinstance(k, int) and k < 0:
            return panic(E, st, c)
        out = out[1:]
    if hi == n:
        return tuple(out)
    if v[1] not in ("str", "string"):
        # from the front, while whole items fit
        k, taken = lin_add(hi, lo, -1), 0
        while not (isinstance(k, int) and k <= 0) and taken < len(out):
            it = out[taken]
            w = seg_len(it[1] if it[0] == "rev" else it) if isseg(it) else 1
            if E.truth(st, E.cmp(st, "le", w, k)) != 1:
                if isseg(it) and isinstance(k, int):
                    raise Fork(E.open_seg(st, it, "front"))
                break
            k = lin_add(k, w, -1)
            taken += 1
        if isinstance(k, int) and k == 0:
            return tuple(out[:taken])
    drop = lin_add(n, hi, -1)
    while not (isinstance(drop, int) and drop == 0):
        if not out:
            raise Undecided("slice end")
        it = out[-1]
        if isseg(it):
            s = it[1] if it[0] == "rev" else it
            t = E.cmp(st, "le", seg_len(s), drop)
            if E.truth(st, t) == 1:
                drop = lin_add(drop, seg_len(s), -1)
                out = out[:-1]
                continue
            if isinstance(drop, int) and drop > 0:
                raise Fork(E.open_seg(st, it, "back"))
            if v[1] not in ("str", "string"):
                return split_sub(E, st, items, lo, hi, c)
            raise Undecided("slice end inside a summary segment")
        if isinstance(drop, int) and drop < 0:
            return panic(E, st, c)
        if not isinstance(drop, int):
            raise Undecided("slice end")
        drop = drop - 1
        out = out[:-1]
    return tuple(out)


def split_sub(E, st, items, lo, hi, c):
    if E.decide(st, E.cmp(st, "lt", hi, lo)) or E.decide(st, E.cmp(st, "lt", items_len(items), hi)):
        return panic(E, st, c)
    return split_items(E, st, split_items(E, st, items, hi)[0], lo)[1]


@builtin("std::slice::reverse")
def reverse(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    E.wr(st, loc, ("seq", v[1], rev_items(v[2])))
    return UNIT


def rev_items(items):
    out = []
    for it in reversed(items):
        if isinstance(it, tuple) and it and it[0] == "seg":
            it = ("rev", it)
        elif isinstance(it, tuple) and it and it[0] == "rev":
            it = it[1]
        out.append(it)
    return tuple(out)


@builtin("std::vec::Vec::append", "std::collections::VecDeque::append")
def append(E, st, c):
    la, a = place_of(E, st, c.args[0])
    lb, b = place_of(E, st, c.args[1])
    E.wr(st, la, ("seq", a[1], a[2] + b[2]))
    E.wr(st, lb, ("seq", b[1], ()))
    return UNIT


@builtin("std::vec::Vec::extend_from_slice", "std::string::String::push_str")
def extend_from_slice(E, st, c):
    la, a = place_of(E, st, c.args[0])
    b = need_seq(E, st, c.args[1])
    E.wr(st, la, ("seq", a[1], a[2] + b[2]))
    return UNIT


@builtin("std::ops::AddAssign::add_assign")
def add_assign(E, st, c):
    """`+=` on a text"""
    a = E.deref(st, c.args[0])
    if isinstance(a, tuple) and a[0] == "seq":
        return extend_from_slice(E, st, c)
    return NotImplemented


@builtin("std::vec::Vec::drain", "std::collections::VecDeque::drain")
def drain(E, st, c):
    la, a = place_of(E, st, c.args[0])
    lo, hi = slice_range(E, c.args[1], a)
    mid = sub_seq(E, st, a, lo, hi, c)
    pre = sub_seq(E, st, a, 0, lo, c)
    post = sub_seq(E, st, a, hi, items_len(a[2]), c)
    E.wr(st, la, ("seq", a[1], pre + post))
    return ("agg", ITER, 0, (("seq", "vec", mid), 0))


@builtin("std::slice::iter", "std::collections::VecDeque::iter")
def iter_(E, st, c):
    v = need_seq(E, st, c.args[0])
    return ("agg", ITER, 0, (("seq", "slice", v[2]), 1))


@builtin("std::str::chars")
def chars(E, st, c):
    v = need_seq(E, st, c.args[0])
    return ("agg", ITER, 0, (("seq", "str", v[2]), 0))


@builtin("std::str::Chars::as_str", "std::str::iter::Chars::as_str")
def chars_as_str(E, st, c):
    v = E.deref(st, c.args[0])
    return ("vref", ("seq", "str", v[3][0][2]))


@builtin("std::str::bytes", "std::str::as_bytes", "std::string::String::as_bytes")
def str_bytes(E, st, c):
    v = need_seq(E, st, c.args[0])
    for it in v[2]:
        if isinstance(it, int) and it > 127:
            raise Undecided("bytes of non-ASCII text")
        if isinstance(it, tuple):
            d = st.dom.get(it[1] if it[0] == "rev" else it)
            if not d or d[-1][1] > 127:
                raise Undecided("bytes of unknown text")
    if c.npath.endswith("as_bytes"):
        return ("vref", ("seq", "slice", v[2]))
    return ("agg", ITER, 0, (("seq", "slice", v[2]), 0))


@builtin("std::str::char_indices")
def char_indices(E, st, c):
    raise Undecided("char_indices")


@builtin("std::str::contains", "std::slice::contains", "std::str::starts_with", "std::str::ends_with",
         "std::slice::starts_with")
def contains(E, st, c):
    v = need_seq(E, st, c.args[0])
    p = c.args[1]
    what = c.npath.rsplit("::", 1)[1]
    if isinstance(p, tuple) and p and p[0] in ("vref", "mref"):
        p = E.deref(st, p)
    if isinstance(p, int) or (isinstance(p, tuple) and p and label_of(p) == "char") or \
            (what == "contains" and v[1] not in ("str", "string")):
        if what == "starts_with":
            r = pop_side(E, st, v[2], "front")
            return 0 if r is None else structural_eq(E, st, r[0], p)
        if what == "ends_with":
            r = pop_side(E, st, v[2], "back")
            return 0 if r is None else structural_eq(E, st, r[0], p)
        if any(isseg(x) for x in v[2]):
            raise Undecided("contains on an unknown sequence")
        if E._numeric(p) and all(isinstance(x, int) for x in v[2]) and not isinstance(p, int):
            d = tuple(sorted({(x, x) for x in v[2]}))
            m = ()
            for x in d:
                m = dom_union(m, (x,))
            return in_dom(E, st, p, m, 1, lambda: 0)
        r = 0
        for x in v[2]:
            e = structural_eq(E, st, x, p)
            if e is None:
                raise Undecided("contains on opaque elements")
            r = E.negate(st, E.b_and(st, E.negate(st, r), E.negate(st, e)))
        return r
    if isinstance(p, tuple) and p and p[0] == "seq" and what in ("starts_with", "ends_with"):
        items = v[2]
        side = "front" if what == "starts_with" else "back"
        pat = p[2] if side == "front" else tuple(reversed(p[2]))
        r = 1
        for x in pat:
            q = pop_side(E, st, items, side)
            if q is None:
                return 0
            e = structural_eq(E, st, q[0], x)
            if e == 0:
                return 0
            r = E.b_and(st, r, e)
            items = q[1]
        return r
    raise Undecided(f"{what} with this pattern")


@builtin("std::str::strip_prefix", "std::str::strip_suffix", "std::slice::strip_prefix")
def strip_prefix(E, st, c):
    v = need_seq(E, st, c.args[0])
    p = c.args[1]
    if isinstance(p, tuple) and p and p[0] in ("vref", "mref"):
        p = E.deref(st, p)
    side = "front" if c.npath.endswith("prefix") else "back"
    if isinstance(p, tuple) and p and p[0] == "seq":
        pat = p[2] if side == "front" else tuple(reversed(p[2]))
    elif isinstance(p, tuple) and p and p[0] == "seq":
        pat = p[2]
    elif isinstance(p, int) or label_of(p) == "char":
        pat = (p,)
    else:
        raise Undecided("strip_prefix pattern")
    items = v[2]
    for x in pat:
        q = pop_side(E, st, items, side)
        if q is None:
            return NONE
        e = structural_eq(E, st, q[0], x)
        if e is None:
            raise Undecided("strip_prefix")
        if not E.decide(st, e):
            return NONE
        items = q[1]
    return some(("vref", ("seq", v[1], items)))


@builtin("std::str::split_at", "std::slice::split_at")
def split_at(E, st, c):
    v = need_seq(E, st, c.args[0])
    n = items_len(v[2])
    k = c.args[1]
    b = sub_seq(E, st, v, k, n, c)
    a = v[2][:len(v[2]) - len(b)]
    return tuple_(("vref", ("seq", v[1], a)), ("vref", ("seq", v[1], b)))


# ---- iterators ------------------------------------------------------------------------------------

@builtin("std::iter::IntoIterator::into_iter")
def into_iter(E, st, c):
    v = c.args[0]
    if isinstance(v, tuple) and v:
        if v[0] == "seq":
            return ("agg", ITER, 0, (v, 0))
        if v[0] == "vref" and v[1] and v[1][0] == "seq":
            return ("agg", ITER, 0, (("seq", "slice", v[1][2]), 1))
        if v[0] == "agg":
            if v[1] == ITER or v[1].startswith("models::") or "ops::range::" in v[1] or v[1].startswith("core::ops::range"):
                return v
            if v[1] == OPTION:
                return E.call_model(st, "std__option__Option__into_iter", [v], c.dest, c.target)
            imp, sub = E.impl_of_value(st, "core::iter::traits::iterator::Iterator", v)
            if imp is not None:
                return v
        if v[0] == "mref":
            x = E.rd(st, ("place", v[1], v[2]))
            if x and x[0] == "agg" and (x[1] == ITER or x[1].startswith("models::") or "ops::range" in x[1]):
                return v
            if x and x[0] == "seq":
                loc, _ = place_of(E, st, v)
                return iter_mut_at(E, st, loc, x)
            return v if x and x[0] == "s" else NotImplemented
        if v[0] in ("s", "t"):
            return v
    return NotImplemented


def iter_mut_at(E, st, loc, x):
    if E.hooks.get("iter mut") == "named":
        return ("agg", ITER, 0, (x, 2))
    if any(isseg(i) for i in x[2]):
        raise Undecided("iter_mut over an unknown sequence")
    return ("agg", ITER, 0, (("seq", "slice", tuple(("mref", loc[1], loc[2] + (("i", n),))
                                                      for n in range(len(x[2])))), 0))


@builtin("std::slice::iter_mut", "std::collections::VecDeque::iter_mut")
def iter_mut(E, st, c):
    if E.hooks.get("iter mut") == "named" and c.args[0][:1] == ("vref",):
        return ("agg", ITER, 0, (c.args[0][1], 2))
    loc, x = place_of(E, st, c.args[0])
    while x and x[0] == "box":
        x = x[1]
        loc = (loc[0], loc[1], loc[2] + ("box",))
    return iter_mut_at(E, st, loc, x)


def iter_step(E, st, c, side):
    v = c.args[0]
    if v[0] != "mref":
        raise Undecided("next on a shared iterator")
    loc, it = place_of(E, st, v)
    if it and it[0] == "agg":
        if it[1] == ITER:
            s, mode = it[3]
            r = pop_side(E, st, s[2], side)
            h = E.hooks.get("item")
            if h is not None:
                h(E, st, s, r, side)
            if r is None:
                return NONE
            E.wr(st, loc, ("agg", ITER, 0, (("seq", s[1], r[1]), mode)))
            if mode == 2:       # one exclusive borrow at a time, of a cell of its own
                st.mem[("g", "borrowed")] = r[0]
                return some(("mref", ("g", "borrowed"), ()))
            return some(("vref", r[0]) if mode == 1 else r[0])
        name = it[1].split("::")[-1]
        if "ops::range" in it[1]:
            ref = ("mref", loc[1], loc[2])
            if name == "Range":
                return E.call_model(st, "std__ops__Range__" + ("next" if side == "front" else "next_back"),
                                    [ref], c.dest, c.target)
            if name == "RangeFrom" and side == "front":
                return E.call_model(st, "std__ops__RangeFrom__next", [ref], c.dest, c.target)
            if name == "RangeInclusive":
                lo, hi, done = it[3]
                if E.decide(st, done) if not isinstance(done, int) else done:
                    return NONE
                if not E.decide(st, E.cmp(st, "le", lo, hi)):
                    return NONE
                last_ = E.decide(st, E.cmp(st, "eq", lo, hi))
                x = lo if side == "front" else hi
                if last_:
                    E.wr(st, loc, ("agg", it[1], 0, (lo, hi, 1)))
                else:
                    E.wr(st, loc, ("agg", it[1], 0, (lin_add(lo, 1), hi, 0) if side == "front" else (lo, lin_add(hi, -1), 0)))
                return some(x)
        trait = "core::iter::traits::iterator::Iterator" if side == "front" else \
            "core::iter::traits::double_ended::DoubleEndedIterator"
        imp, sub = E.impl_of_value(st, trait, it)
        if imp is not None:
            key = imp["imap"].get(trait + ("::next" if side == "front" else "::next_back"))
            if key:
                E.push(st, E.prog.bodies[key], dict(sub), [("mref", loc[1], loc[2])], c.dest, c.target)
                return CALL
    if it and it[0] == "box":
        raise Undecided("boxed iterator")
    h = E.hooks.get("iter-next")
    if h is not None:
        r = h(E, st, c, it, loc, side)
        if r is not NotImplemented:
            return r
    raise Undecided(f"next on {show(it)}")


@builtin("std::iter::Iterator::next")
def iter_next(E, st, c):
    return iter_step(E, st, c, "front")


@builtin("std::iter::DoubleEndedIterator::next_back")
def iter_next_back(E, st, c):
    return iter_step(E, st, c, "back")


@builtin("std::iter::Iterator::rev")
def iter_rev(E, st, c):
    v = c.args[0]
    if v[0] == "agg" and v[1] == ITER:
        s, mode = v[3]
        return ("agg", ITER, 0, (("seq", s[1], rev_items(s[2])), mode))
    return NotImplemented


@builtin("std::iter::Iterator::take")
def iter_take(E, st, c):
    v, n = c.args
    if v[0] == "agg" and v[1] == ITER and not (isinstance(n, int)):
        s, mode = v[3]
        ln = items_len(s[2])
        if E.decide(st, E.cmp(st, "le", ln, n)):
            return v
        # split the sequence at position n
        out = []
        pos = 0
        for it in s[2]:
            if E.truth(st, E.cmp(st, "eq", pos, n)) == 1:
                return ("agg", ITER, 0, (("seq", s[1], tuple(out)), mode))
            if isseg(it):
                sg = it[1] if it[0] == "rev" else it
                end = lin_add(pos, seg_len(sg))
                if E.decide(st, E.cmp(st, "le", end, n)):
                    out.append(it)
                    pos = end
                    continue
                # n falls inside: split the segment
                a = ("seg", sg[1], fresh_id(), False)
                b = ("seg", sg[1], fresh_id(), False)
                parts = (a, b) if it[0] == "seg" else (b, a)
                fst = a
                m = {sg: ("splice", parts)}
                raise Fork([[("sub", m), ("is", E.cmp(st, "eq", lin_add(pos, seg_len(fst)), Subst(m)(n)), 1)]])
            if E.decide(st, E.cmp(st, "le", n, pos)):
                return ("agg", ITER, 0, (("seq", s[1], tuple(out)), mode))
            out.append(it)
            pos = lin_add(pos, 1)
        return ("agg", ITER, 0, (("seq", s[1], tuple(out)), mode))
    if "models::MTake" in E.prog.adts:
        return ("agg", "models::MTake", 0, (v, n))
    return NotImplemented


@builtin("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def iter_cloned(E, st, c):
    v = c.args[0]
    if v[0] == "agg" and v[1] == ITER and v[3][1] == 1 and "clone" not in E.hooks:
        return ("agg", ITER, 0, (v[3][0], 0))
    return NotImplemented


@builtin("std::iter::Iterator::count")
def iter_count(E, st, c):
    v = c.args[0]
    if v[0] == "agg" and v[1] == ITER:
        return items_len(v[3][0][2])
    return NotImplemented


@builtin("std::iter::Iterator::size_hint")
def size_hint(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "agg" and v[1] == ITER:
        n = items_len(v[3][0][2])
        return tuple_(n, some(n))
    raise Undecided("size_hint")


COLLECT = {
    ("alloc::vec::Vec",): "model__collect_vec",
    ("alloc::collections::vec_deque::VecDeque",): "model__collect_deque",
    ("alloc::string::String",): "model__collect_string",
}


@builtin("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def collect(E, st, c):
    it = c.args[0]
    if c.npath.endswith("collect"):
        t = c.targs[-1]
    else:
        t = c.targs[0]
    kind = None
    if t[0] == "adt":
        if (t[1],) in COLLECT:
            kind = COLLECT[(t[1],)]
            if it[0] == "agg" and it[1] == ITER and it[3][1] == 0:
                k = {"model__collect_vec": "vec", "model__collect_deque": "deque"}.get(kind, "string")
                return ("seq", k, it[3][0][2])
            if it[0] == "agg" and it[1] == ITER and it[3][1] == 1 and kind != "model__collect_string":
                if not any(isseg(x) for x in it[3][0][2]):
                    return ("seq", "vec" if kind == "model__collect_vec" else "deque",
                            tuple(("vref", x) for x in it[3][0][2]))
        elif t[1] in (RESULT, OPTION):
            inner = t[2][0]
            p = "result" if t[1] == RESULT else "option"
            if inner[0] == "adt" and inner[1] == "alloc::vec::Vec":
                kind = f"model__collect_{p}_vec"
            elif inner[0] == "adt" and inner[1] == "alloc::string::String":
                kind = f"model__collect_{p}_string"
            elif inner == ("tuple", ()):
                kind = f"model__collect_{p}_unit"
    if kind is None or kind not in E.models:
        raise Undecided(f"collect into {mir.ty_str(t)}")
    # sources such as Option or a sequence become iterators first
    if it[0] == "seq":
        it = ("agg", ITER, 0, (it, 0))
    return E.call_model(st, kind, [it], c.dest, c.target)


@builtin("std::iter::Iterator::sum")
def iter_sum(E, st, c):
    it = c.args[0]
    if c.targs[-1] != ("int", "usize") or "model__sum_usize" not in E.models:
        return NotImplemented
    return E.call_model(st, "model__sum_usize", [it], c.dest, c.target)


@builtin("std::iter::Extend::extend")
def extend(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    it = c.args[1]
    if not v or v[0] != "seq":
        return NotImplemented
    if it[0] == "seq":
        it = ("agg", ITER, 0, (it, 0))
    if it[0] == "agg" and it[1] == ITER and (it[3][1] == 0 or v[1] != "vec" or True):
        items = it[3][0][2]
        if it[3][1] == 1 and c.targs and not _copies(c):
            items = tuple(("vref", x) for x in items)
        E.wr(st, loc, ("seq", v[1], v[2] + items))
        return UNIT
    m = {"vec": "model__extend_vec", "deque": "model__extend_deque", "string": "model__extend_string"}.get(v[1])
    return E.call_model(st, m, [c.args[0], it], c.dest, c.target)


def _copies(c):
    """Extend<&'a T> for Vec<T> copies the elements"""
    t = c.targs[1] if len(c.targs) > 1 else None
    return t is not None and t[0] == "ref"


@builtin("std::ops::RangeInclusive::new")
def ri_new(E, st, c):
    return ("agg", "core::ops::range::RangeInclusive", 0, (c.args[0], c.args[1], 0))


@builtin("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains")
def range_contains(E, st, c):
    r = E.deref(st, c.args[0])
    x = E.deref(st, c.args[1])
    n = r[1].split("::")[-1]
    a = E.cmp(st, "le", r[3][0], x)
    if n == "RangeFrom":
        return a
    b = E.cmp(st, "lt" if n == "Range" else "le", x, r[3][1])
    return E.b_and(st, a, b)


# ---- formatting: opaque text ----------------------------------------------------------------------

@builtin("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug",
         "std::fmt::rt::Argument::new_lower_hex", "std::fmt::rt::Argument::new_upper_hex",
         "std::fmt::rt::Argument::from_usize")
def fmt_arg(E, st, c):
    return ("t", "fmtarg", (E.deref(st, c.args[0]), c.npath.rsplit("::", 1)[1]), "fmtarg")


@builtin("std::fmt::Arguments::new", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1",
         "std::fmt::Arguments::new_v1_formatted", "std::fmt::Arguments::from_str",
         "std::fmt::Arguments::from_str_nonconst")
def fmt_args(E, st, c):
    return ("t", "fmt", tuple(E.deref(st, a) for a in c.args), "fmt")


@builtin("std::fmt::format")
def fmt_format(E, st, c):
    from . import fmt
    ps = fmt.pieces(c.args[0])
    out = ()
    for p in ps or ():
        if p[0] == "lit":
            out += tuple(map(ord, p[1]))
            continue
        v = p[1]
        while isinstance(v, tuple) and v and v[0] in ("vref", "mref"):
            v = E.deref(st, v)
        if p[2] == "new_display" and not p[3] and isinstance(v, tuple) and v[0] == "seq" and v[1] in ("str", "string"):
            out += v[2]
        else:
            break
    else:
        if ps is not None:
            return ("seq", "string", out)
    return ("t", "text", (c.args[0],), "text")


@builtin("std::io::_eprint", "std::io::_print", "std::io::stdio::_eprint")
def eprint(E, st, c):
    return UNIT


@builtin("std::mem::size_of", "std::mem::align_of")
def size_of(E, st, c):
    """unknown, but the same each time"""
    t = c.targs[0]
    sizes = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16,
             "usize": 8, "isize": 8}
    if t[0] == "int":
        return sizes[t[1]]
    if t == ("char",):
        return 4
    return ("t", "size", (ty_label(t), c.npath), "int:usize")


@builtin("std::sync::Arc::ptr_eq", "std::rc::Rc::ptr_eq", "std::ptr::eq", "std::ptr::addr_eq")
def ptr_eq(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    if a == b:
        return 1
    return ("t", "ptr_eq", (a, b) if repr(a) <= repr(b) else (b, a), "bool")


@builtin("std::ops::Drop::drop")
def drop_box(E, st, c):
    """freeing a box whose content has been moved out"""
    t = c.targs[0] if c.targs else None
    if t is not None and t[0] == "adt" and t[1] == "alloc::boxed::Box":
        return UNIT
    return NotImplemented


# ---- std::io::Cursor: a position and what it reads -------------------------------------------------

CURSOR = "std::io::Cursor"


@builtin("std::io::Cursor::new")
def cursor_new(E, st, c):
    return ("agg", CURSOR, 0, (0, c.args[0]))


def _cursor(E, st, c):
    v = E.deref(st, c.args[0])
    if v[:2] != ("agg", CURSOR):
        raise Undecided(f"cursor {show(v)}")
    return v


@builtin("std::io::Cursor::into_inner")
def cursor_into_inner(E, st, c):
    return _cursor(E, st, c)[3][1]


@builtin("std::io::Cursor::position")
def cursor_position(E, st, c):
    return _cursor(E, st, c)[3][0]


@builtin("std::io::Cursor::set_position")
def cursor_set_position(E, st, c):
    loc, v = place_of(E, st, c.args[0])
    E.wr(st, loc, ("agg", CURSOR, 0, (c.args[1], _cursor(E, st, c)[3][1])))
    return UNIT
