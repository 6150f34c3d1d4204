"""Loads the JSON that the MIR driver writes: bodies, types, traits, impls."""
import json
import re


def norm_path(path):
    """std path without generic arguments: `std::option::Option::map`."""
    p = path
    # `<T as Trait<..>>::m` -> `Trait::m`
    out = []
    i = 0
    depth = 0
    m = re.match(r"^<(.*) as (.*)>::([^<>:]+(?:::<.*>)?)$", p)
    if m:
        # split at the outermost ` as `
        s = p[1:]
        d = 0
        k = 0
        pos_as = None
        end = None
        while k < len(s):
            c = s[k]
            if c == "<":
                d += 1
            elif c == ">" and s[k - 1] != "-":
                if d == 0:
                    end = k
                    break
                d -= 1
            elif d == 0 and s.startswith(" as ", k) and pos_as is None:
                pos_as = k
            k += 1
        if pos_as is not None and end is not None:
            p = s[pos_as + 4:end] + s[end + 1:]
    p = re.sub(r"<impl (\[T\]|[a-z0-9]+)>::", "", p)
    # drop <...> groups
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or p[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    p = "".join(out)
    p = re.sub(r":{3,}", "::", p).rstrip(":")
    p = p.lstrip(":")
    if p.startswith("core::"):
        p = "std::" + p[6:]
    if p.startswith("alloc::"):
        p = "std::" + p[7:]
    return p


class Body:
    __slots__ = ("key", "promoted", "generics", "argc", "locals", "blocks", "span", "spread",
                 "prog", "names", "heads", "kind", "parent", "live", "addr_taken", "crate", "unsafe")

    def __repr__(self):
        return f"<{self.key}>"


class Program:
    def __init__(self):
        self.bodies = {}
        self.promoted = {}
        self.impls = []
        self.impl_by_key = {}
        self.traits = {}
        self.adts = {}
        self.defs = {}
        self.trait_items = {}
        self.cfg = {}
        self.files = {}
        self.impls_by_trait = {}
        self.paths = {}

    def by_npath(self, n):
        """keys of the functions with this path, e.g. laps::span::Span::start"""
        return [k for k, d in self.defs.items() if d.get("npath") == n and k in self.bodies]

    def load(self, path):
        with open(path) as f:
            d = json.load(f)
        crate = d["crate"]
        raw = d["tys"]
        memo = {}

        def ty(i):
            if not isinstance(i, int):
                return arg(i)
            if i in memo:
                return memo[i]
            t = raw[i]
            k = t[0]
            memo[i] = ("rec", i)
            if k in ("adt", "fndef", "alias"):
                r = (k, t[1], tuple(ty(a) for a in t[2]))
            elif k == "param":
                r = ("param", t[1])
            elif k == "ref":
                r = ("ref", ty(t[1]), bool(t[2]))
            elif k == "ptr":
                r = ("ptr", ty(t[1]), bool(t[2]))
            elif k == "tuple":
                r = ("tuple", tuple(ty(a) for a in t[1]))
            elif k == "slice":
                r = ("slice", ty(t[1]))
            elif k == "array":
                r = ("array", ty(t[1]), arg(t[2]))
            elif k == "int":
                r = ("int", t[1])
            elif k == "closure":
                r = ("closure", t[1], tuple(ty(a) for a in t[2]))
            elif k in ("bool", "char", "str", "never"):
                r = (k,)
            elif k == "float":
                r = ("float", t[1])
            else:
                r = (k, t[-1])
            memo[i] = r
            return r

        def arg(a):
            if isinstance(a, str):
                return a
            if a[0] == "cval":
                return ("c", a[1])
            if a[0] == "cparam":
                return ("cparam", a[1])
            return ("cother",)

        def place(p):
            out = [p[0]]
            for e in p[1:]:
                if isinstance(e, list):
                    if e[0] == "f":
                        out.append(("f", e[1]))
                    else:
                        out.append(tuple(e))
                else:
                    out.append(e)
            return tuple(out)

        def operand(o):
            if o[0] in ("copy", "move"):
                return (o[0], place(o[1]))
            if o[0] == "const":
                c = dict(o[1])
                c["t"] = ty(c["t"])
                if "args" in c:
                    c["args"] = tuple(ty(a) for a in c["args"])
                return ("const", c)
            return tuple(o)

        def rvalue(r):
            k = r[0]
            if k == "use":
                return ("use", operand(r[1]))
            if k == "repeat":
                return ("repeat", operand(r[1]), r[2])
            if k == "ref":
                return ("ref", r[1], place(r[2]))
            if k == "rawptr":
                return ("ref", "raw", place(r[1] if isinstance(r[1], list) else r[2]))
            if k == "cast":
                return ("cast", r[1], operand(r[2]), ty(r[3]))
            if k == "bin":
                return ("bin", r[1], operand(r[2]), operand(r[3]))
            if k == "un":
                return ("un", r[1], operand(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                kd = r[1]
                if kd[0] == "adt":
                    kd = ("adt", kd[1], kd[2], tuple(ty(a) for a in kd[3]), kd[4] if len(kd) > 4 else None)
                elif kd[0] == "closure":
                    kd = ("closure", kd[1], tuple(ty(a) for a in kd[2]))
                elif kd[0] == "array":
                    kd = ("array", ty(kd[1]))
                else:
                    kd = tuple(x if not isinstance(x, list) else str(x) for x in kd)
                return ("agg", kd, [operand(x) for x in r[2]])
            return tuple(r)

        def stmt(s):
            if s[0] == "=":
                return ("=", place(s[1]), rvalue(s[2]), s[3])
            if s[0] == "setd":
                return ("setd", place(s[1]), s[2], s[3] if len(s) > 3 else None)
            return tuple(s)

        def term(t):
            k = t[0]
            if k == "switch":
                return ("switch", operand(t[1]), ty(t[2]) if isinstance(t[2], int) else t[2],
                        [(int(v), b) for v, b in t[3]], t[4], t[5])
            if k == "call":
                res = t[5]
                if res:
                    res = (res[0], tuple(ty(a) for a in res[1]), res[2])
                return ("call", operand(t[1]), [operand(x) for x in t[2]], place(t[3]), t[4], res, t[6])
            if k == "drop":
                return ("drop", place(t[1]), t[2], ty(t[3]) if isinstance(t[3], int) else t[3], t[4])
            if k == "assert":
                return ("assert", operand(t[1]), t[2], t[3], [operand(x) for x in t[4]], t[5], t[6])
            return tuple(t)

        for k, v in d["defs"].items():
            if v is None:
                continue
            p = v["path"]
            if v["local"]:
                p = crate + "::" + p if not p.startswith("<") else p
            v["npath"] = norm_path(p)
            if v.get("impl_self") is not None:
                v["impl_self"] = ty(v["impl_self"])
            old = self.defs.get(k)
            if old is None or v["local"]:
                self.defs[k] = v
            if v["local"]:
                self.paths.setdefault(v["npath"], []).append(k)
        for k, a in d["adts"].items():
            a = dict(a)
            a["variants"] = [
                {"name": v["name"], "discr": int(v["discr"]), "fields": [(f[0], ty(f[1])) for f in v["fields"]]}
                for v in a["variants"]]
            old = self.adts.get(k)
            if old is None or k.startswith(crate + "::"):
                self.adts[k] = a
        for t in d["traits"]:
            self.traits[t["key"]] = t
            for name, key, dflt in t["items"]:
                self.trait_items[key] = (t["key"], name, dflt)
        for i in d["impls"]:
            i = dict(i)
            i["self"] = ty(i["self"])
            i["args"] = tuple(ty(a) for a in i["args"]) if i.get("args") else ()
            items = {}
            assoc = {}
            for it in i["items"]:
                items[it[2] if len(it) > 2 and it[2] else it[1]] = it[1]
                if len(it) > 3 and it[3] is not None:
                    assoc[it[2]] = ty(it[3])
            i["imap"] = items
            i["assoc"] = assoc
            i["crate"] = crate
            self.impls.append(i)
            self.impl_by_key[i["key"]] = i
            if i.get("trait"):
                self.impls_by_trait.setdefault(i["trait"], []).append(i)
        for b in d["bodies"]:
            x = Body()
            x.crate = crate
            x.key = b["key"]
            x.promoted = b["promoted"]
            x.kind = b["kind"]
            x.generics = b["generics"]
            x.argc = b["argc"]
            x.locals = [ty(l[0]) for l in b["locals"]]
            x.names = [l[1] for l in b["locals"]]
            x.span = b["span"]
            x.unsafe = b.get("unsafe", ())
            x.spread = b.get("spread")
            x.parent = b.get("parent")
            x.blocks = []
            for k in b["blocks"]:
                if k["c"]:
                    x.blocks.append(None)
                    continue
                x.blocks.append(([stmt(s) for s in k["s"]], term(k["t"])))
            x.heads = loop_heads(x)
            x.live, x.addr_taken = liveness(x)
            if x.promoted is None:
                self.bodies[x.key] = x
            else:
                self.promoted[(x.key, x.promoted)] = x
        self.cfg[crate] = d["cfg"]
        self.files[crate] = d["files"]
        return crate

    def find(self, npath):
        ks = self.paths.get(npath, [])
        return ks

    def one(self, npath):
        ks = [k for k in self.find(npath) if k in self.bodies]
        if len(ks) != 1:
            raise KeyError(f"{npath}: {len(ks)} bodies")
        return ks[0]


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[3]] + [term[4]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[5]]
    return []


def loop_heads(b):
    """targets of DFS back edges"""
    heads = set()
    color = {}
    stack = [(0, iter(succs(b.blocks[0][1]) if b.blocks and b.blocks[0] else []))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if b.blocks[s] is None:
                continue
            c = color.get(s, 0)
            if c == 1:
                heads.add(s)
            elif c == 0:
                color[s] = 1
                stack.append((s, iter(succs(b.blocks[s][1]))))
                break
        else:
            color[n] = 2
            stack.pop()
    return heads


def _op_uses(o, out):
    if o[0] in ("copy", "move"):
        out.add(o[1][0])
        for e in o[1][1:]:
            if isinstance(e, tuple) and e[0] == "i":
                out.add(e[1])


def _place_idx(p, out):
    for e in p[1:]:
        if isinstance(e, tuple) and e[0] == "i":
            out.add(e[1])


def liveness(b):
    addr = set()
    n = len(b.blocks)
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]
    for i, blk in enumerate(b.blocks):
        if blk is None:
            continue
        u, d = use[i], deff[i]

        def read(l):
            if l not in d:
                u.add(l)

        for s in blk[0]:
            if s[0] == "=":
                rv = s[2]
                xs = set()
                k = rv[0]
                if k in ("use",):
                    _op_uses(rv[1], xs)
                elif k == "repeat":
                    _op_uses(rv[1], xs)
                elif k == "ref":
                    xs.add(rv[2][0])
                    _place_idx(rv[2], xs)
                    if "*" not in rv[2][1:]:
                        addr.add(rv[2][0])
                elif k == "cast":
                    _op_uses(rv[2], xs)
                elif k == "bin":
                    _op_uses(rv[2], xs)
                    _op_uses(rv[3], xs)
                elif k == "un":
                    _op_uses(rv[2], xs)
                elif k == "discr":
                    xs.add(rv[1][0])
                    _place_idx(rv[1], xs)
                elif k == "agg":
                    for o in rv[2]:
                        _op_uses(o, xs)
                for l in xs:
                    read(l)
                p = s[1]
                if len(p) == 1:
                    d.add(p[0])
                else:
                    read(p[0])
                    ys = set()
                    _place_idx(p, ys)
                    for l in ys:
                        read(l)
            elif s[0] == "setd":
                read(s[1][0])
            elif s[0] == "intrinsic":
                pass
        t = blk[1]
        xs = set()
        if t[0] == "switch":
            _op_uses(t[1], xs)
        elif t[0] == "call":
            _op_uses(t[1], xs)
            for o in t[2]:
                _op_uses(o, xs)
        elif t[0] == "drop":
            xs.add(t[1][0])
        elif t[0] == "assert":
            _op_uses(t[1], xs)
            for o in t[4]:
                _op_uses(o, xs)
        elif t[0] == "return":
            xs.add(0)
        for l in xs:
            read(l)
        if t[0] == "call":
            p = t[3]
            if len(p) == 1:
                d.add(p[0])
            else:
                read(p[0])
    livein = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            if b.blocks[i] is None:
                continue
            o = set()
            for s in succs(b.blocks[i][1]):
                o |= livein[s]
            new = use[i] | (o - deff[i])
            if new != livein[i]:
                livein[i] = new
                changed = True
    return livein, addr


# ---- types --------------------------------------------------------------------------------------

def subst(t, s):
    if not isinstance(t, tuple) or not s:
        return t
    k = t[0]
    if k == "param":
        return s.get(t[1], t)
    if k == "cparam":
        return s.get(t[1], t)
    if k in ("int", "bool", "char", "str", "never", "c", "cother", "float", "rec", "other"):
        return t
    return tuple(subst(x, s) if isinstance(x, tuple) and (x and (isinstance(x[0], (str, tuple)))) else x for x in t)


def unify(pat, t, s):
    """match pattern type against t, binding pattern params into s"""
    if isinstance(pat, tuple) and pat and pat[0] in ("param", "cparam"):
        if pat[1] in s:
            return s[pat[1]] == t
        s[pat[1]] = t
        return True
    if pat == t:
        return True
    if isinstance(pat, tuple) and isinstance(t, tuple):
        if pat and t and (pat[0] == "cother" or t[0] == "cother"):
            return True
        if len(pat) != len(t):
            return False
        return all(unify(a, b, s) for a, b in zip(pat, t))
    return False


def ty_str(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "adt":
        a = [ty_str(x) for x in t[2] if x != "'"]
        n = t[1].split("::")[-1]
        return n + ("<" + ",".join(a) + ">" if a else "")
    if k == "param":
        return t[1]
    if k == "ref":
        return ("&mut " if t[2] else "&") + ty_str(t[1])
    if k == "tuple":
        return "(" + ",".join(ty_str(x) for x in t[1]) + ")"
    if k == "int":
        return t[1]
    if k == "alias":
        return "<" + ",".join(ty_str(x) for x in t[2]) + ">::" + t[1].split("::")[-1]
    if k == "slice":
        return "[" + ty_str(t[1]) + "]"
    if k == "c":
        return str(t[1])
    if k == "array":
        return "[" + ty_str(t[1]) + ";" + ty_str(t[2]) + "]"
    if k in ("fndef", "closure"):
        return k + " " + t[1]
    return k
