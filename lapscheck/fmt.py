"""Format templates: the compiler's encoding of `{..}` strings, as pieces."""
from .values import *


def ints(v):
    while isinstance(v, tuple) and v and v[0] in ("vref", "box"):
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == "seq" and all(isinstance(x, int) for x in v[2]):
        return bytes(v[2])
    return None


def items(v):
    while isinstance(v, tuple) and v and v[0] in ("vref", "box"):
        v = v[1]
    return v[2] if isinstance(v, tuple) and v and v[0] == "seq" else None


def pieces(args):
    """("t","fmt",...) -> [("lit", text) | ("arg", value, trait, options)] or None"""
    if not (isinstance(args, tuple) and args[:2] == ("t", "fmt")):
        return None
    a = args[2]
    if len(a) == 1:
        b = a[0]
        while isinstance(b, tuple) and b[0] in ("vref", "box"):
            b = b[1]
        if b[0] == "seq" and b[1] in ("str", "string") and all(isinstance(x, int) for x in b[2]):
            return [("lit", "".join(map(chr, b[2])))]
        return None
    t, av = ints(a[0]), items(a[1])
    if t is None or av is None:
        return None
    out, i, nxt = [], 0, 0
    while i < len(t):
        n = t[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", t[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = t[i] + 256 * t[i + 1]
            out.append(("lit", t[i + 2:i + 2 + ln].decode()))
            i += 2 + ln
        elif n >= 0xC0:
            o = {}
            for bit, name, w in ((1, "flags", 4), (2, "width", 2), (4, "precision", 2), (8, "index", 2)):
                if n & bit:
                    o[name] = int.from_bytes(t[i:i + w], "little")
                    i += w
            if n & 16 and "width" in o:
                o["width"] = av[o["width"]]
            if n & 32 and "precision" in o:
                o["precision"] = av[o["precision"]]
            k = o.pop("index", nxt)
            nxt = k + 1
            x = av[k]
            if not (isinstance(x, tuple) and x[:2] == ("t", "fmtarg")):
                return None
            out.append(("arg", x[2][0], x[2][1], tuple(sorted(o.items()))))
        else:
            return None
    # merge adjacent literals
    m = []
    for p in out:
        if p[0] == "lit" and m and m[-1][0] == "lit":
            m[-1] = ("lit", m[-1][1] + p[1])
        else:
            m.append(p)
    return m
