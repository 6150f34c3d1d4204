"""C10: readers hand out the source exactly once, however it is chunked."""
from ..common import Check, program, confirmed
from ..readers import *
from .c09 import explore, report, methods, S, READING


def flow(src, E, s, v, m):
    """buffered ++ decoded characters and pending ++ read bytes are all still there"""
    old = s.ghost["old"]
    before, now = src.upcoming(s, old), src.upcoming(s)
    lay = src.lay
    D = s.ghost["D"][2]
    chars = lay.name.endswith("Reader") and src.ch == "char"
    good = v[2] == 0
    handed = ()
    if good:
        c = v[3][0] if m == "peek" else v[3][0][3][0]
        if c[2] == 1:
            handed = (E.deref(s, c[3][0]) if isinstance(c[3][0], tuple) and c[3][0][0] in ("vref", "mref") else c[3][0],)
        elif before or now or (chars and s.ghost["A"][2]) or D or not s.ghost["eof"]:
            src.problem(s, "bytes", "reports the end of input too early",
                        f"returns None with buffered {S(before)}, undecoded {S(s.ghost['A'][2])}, read {S(D)}, "
                        f"{'at' if s.ghost['eof'] else 'not at'} the end of the source")
            return
    out = (handed if m == "next_char_loc" else ()) + now
    if good and m != "next_char_loc" and handed and now[:1] != handed:
        src.problem(s, "bytes", "peeked character is not the next one", f"peeks {S(handed)}, upcoming are {S(now)}")
    if not chars:
        if out != before + D:
            src.problem(s, "bytes", "bytes lost, repeated or reordered",
                        f"hands out {S(out)} where {S(before + D)} was due")
        return
    due = s.ghost["A"][2] + D
    diag_err = not good and is_diag(v[3][0]) and v[3][0][2][1] == 0
    if diag_err:
        if before:
            src.problem(s, "bytes", "reports an invalid character before handing out valid ones",
                        f"{S(before)} is still buffered")
        kn = s.ghost.get("known")
        w = kn[2] if kn is not None else None
        if w == 2:
            return
        if w == 1 and s.ghost["eof"]:
            return
        src.problem(s, "bytes", "reports an invalid character for bytes that may become valid",
                    f"reports an error although {S(due)} is "
                    + ("an incomplete character and more input may follow" if w == 1 else "not known to start with an "
                       "invalid character"))
        return
    enc = s.ghost["ENC"][2]
    try:
        pend = src.pending(E, s)
    except Undecided as e:
        # bytes that cannot be told apart: the number of them may still be wrong
        k = lay.get(s.mem[CELL], "offset")
        for used in ([],) + tuple([e] for e in enc):
            b = tuple(x for e in used for x in e[3][0][2])
            c = tuple(x for e in used for x in e[3][1][2])
            if due[:len(b)] == b and out == before + c:
                t = E.truth(s, E.cmp(s, "eq", k, items_len(due[len(b):])))
                if t == 0:
                    src.problem(s, "bytes", "wrong number of undecoded bytes kept",
                                f"keeps {show(k)} undecoded bytes of {S(due[len(b):])}")
                    return
        raise e
    for used in ([],) + tuple([e] for e in enc) + ((list(enc),) if len(enc) > 1 else ()):
        b = tuple(x for e in used for x in e[3][0][2])
        c = tuple(x for e in used for x in e[3][1][2])
        if b + pend == due and out == before + c:
            return
    src.problem(s, "bytes", "bytes lost, repeated or reordered",
                f"{S(due)} became characters {S(out)} (buffered before: {S(before)}) and undecoded bytes {S(pend)}; "
                f"known encodings: " + "; ".join(f"{S(e[3][0][2])} is {S(e[3][1][2])}" for e in enc))


@confirmed
def one(ck, prog, name, m):
    src, E, key, out = explore(prog, name, m)
    ck.count("methods")
    for s, v, a in out:
        E.judge(s, v, lambda s, v: flow(src, E, s, v, m))
    report(ck, src, E, key, name.rsplit("::", 1)[-1] + "::" + m, ("bytes",))


def main():
    ck = Check("C10",
               "per reading operation: characters handed out ++ still buffered == buffered before ++ decoded now, and "
               "decoded bytes ++ undecoded bytes == undecoded before ++ bytes read; None only at the end with nothing "
               "left; an invalid-character error only for bytes that cannot become valid",
               "Abstract interpretation of the MIR of both readers over an unknown byte source: each read may fail, end, "
               "or deliver any non-empty run of bytes; validation of any run may succeed or stop anywhere, at an "
               "incomplete or an invalid character.")
    prog = program()
    for name in READERS:
        for m in READING:
            one(ck, prog, name, m)
    ck.floor("methods", 6)
    return ck.finish()
