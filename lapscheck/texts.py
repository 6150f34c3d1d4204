"""What is printed: text as a sequence of characters, shown values and unknown parts."""
from .values import *
from .engine import Engine, MODE
from . import fmt, spans, mir
from .checks import c28

FT = "laps::span::FileType"
COLOURS = """color red green yellow blue magenta purple cyan white black bright_black bright_red bright_green bright_yellow
bright_blue bright_magenta bright_purple bright_cyan bright_white bold dimmed italic underline blink reversed hidden
strikethrough clear normal truecolor on_red on_green on_yellow on_blue on_color""".split()


def shown(v, how="new_display"):
    """a value shown by its own Display (or other) form"""
    return ("t", "shown", (v, how), "char")


ANY = ("t", "anything", (), "char")


def behind(E, st, v):
    while isinstance(v, tuple) and v and v[0] in ("vref", "mref", "box"):
        v = E.deref(st, v) if v[0] != "box" else v[1]
    return v


def field(prog, v, name):
    for x, (n, t) in zip(v[3], prog.adts[v[1]]["variants"][0]["fields"]):
        if n == name:
            return x


def flat(E, st, v, how="new_display", opts=()):
    """items printed for a value"""
    v = behind(E, st, v)
    if isinstance(v, int):
        return [shown(v, how)] if how != "new_display" else list(map(ord, str(v))) if not opts else [shown(v, how)]
    if v[0] == "seq" and v[1] in ("str", "string"):
        if how != "new_display":
            return [shown(v, how)]
        out = [ANY if isinstance(x, tuple) and x[0] == "seg" else x for x in v[2]]
        return out + [("t", "spaces", (chr(dict(opts).get("flags", 32) & 0x1FFFFF or 32),), "char")] if opts else out
    if v[:2] == ("t", "fmt"):
        return template(E, st, v)
    if v[:2] == ("t", "text"):
        return template(E, st, v[2][0])
    if how == "new_display" and v[0] == "agg" and v[1] in (spans.SPAN, spans.LOC) and not opts:
        a, b, sep = ("start", "end", "-") if v[1] == spans.SPAN else ("line", "col", ":")
        return flat(E, st, field(E.prog, v, a)) + [ord(sep)] + flat(E, st, field(E.prog, v, b))
    if how == "new_display" and v[0] == "agg" and v[1] == FT and not opts:
        return file_type(E, st, v)
    return [shown(v, how)]


def file_type(E, st, v):
    n = E.prog.adts[FT]["variants"][v[2]]["name"]
    if n == "File":
        return [path_of(E, st, v[3][0])]
    return list(map(ord, {"Stdin": "<stdin>", "Buffer": "<buffer>"}[n]))


def path_of(E, st, p):
    return shown(("t", "path", (behind(E, st, p),), "path"))


def template(E, st, a):
    a = behind(E, st, a)
    ps = fmt.pieces(a) if a[:2] == ("t", "fmt") else None
    if ps is None:
        return [shown(a)]
    out = []
    for p in ps:
        if p[0] == "lit":
            out += map(ord, p[1])
        else:
            out += flat(E, st, p[1], p[2], p[3])
    return out


def text_of(items):
    s = ""
    for x in items:
        s += chr(x) if isinstance(x, int) else "{" + show(x[2][0]) + "}" if x[1] == "shown" else \
            3 * x[2][0] if x[1] == "spaces" else "{..}"
    return s


class Printer:
    """standard error, against the text that is wanted first; what follows that is the excerpt"""

    def __init__(self, prog):
        self.prog = prog
        self.bad = []

    def problem(self, st, key, msg):
        self.bad.append((key, msg, st.trace_list()))

    # -- output --------------------------------------------------------------------------------

    def out(self, E, st, items):
        for n, x in enumerate(items):
            want = st.ghost["WANT"][2]
            if not want:
                self.excerpt(E, st, x)
                continue
            if x == ANY:
                raise Undecided("an unknown text is printed")
            if not same(E, st, x, want[0]):
                self.problem(st, "text", f"prints {text_of(items)!r} where {text_of(want)!r} is due")
                raise Infeasible()
            st.ghost["WANT"] = ("seq", "want", want[1:])

    def excerpt(self, E, st, x):
        g = st.ghost
        if "ROW" not in g:
            if x not in (10, 32):
                self.problem(st, "text", f"prints {text_of([x])!r} after the whole report")
                raise Infeasible()
            return
        if x == 10 and g["BARE"]:
            g["BARE"] = 0
            if g["HAVE"] is not None and lin_add(g["HAVE"], 1) == g["CUR"]:
                self.problem(st, "rows", f"row {show(g['CUR'])} does not show its line")
                raise Infeasible()
        if isinstance(x, int) or x[1] in ("spaces", "anything", "report"):
            if x == ord(".") or not isinstance(x, int) and x[1] == "spaces" and x[2][0] == ".":
                g["DOTS"] = 1
            return
        if x[1] == "linetext":
            g["BARE"] = 0
            if E.decide(st, E.cmp(st, "eq", lin_add(x[2][0], 1), g["CUR"])) != 1:
                self.problem(st, "rows", f"line {show(lin_add(x[2][0], 1))} of the file is shown as line {show(g['CUR'])}")
                raise Infeasible()
            return
        if x[1] == "shown" and x[2][1] == "new_display" and numeric(E, st, x[2][0]):
            n = x[2][0]
            if not E.decide(st, E.cmp(st, "eq", n, g["ROW"])):
                if not g["DOTS"] or not E.decide(st, E.cmp(st, "lt", g["ROW"], n)):
                    self.problem(st, "rows", f"row {show(n)} follows where row {show(g['ROW'])} is due")
                    raise Infeasible()
            g["CUR"], g["ROW"], g["DOTS"] = n, lin_add(n, 1), 0
            g["SOME"] = g["BARE"] = 1

    def print(self, E, st, c):
        self.out(E, st, template(E, st, c.args[0]))
        return UNIT

    def stdout(self, E, st, c):
        self.problem(st, "text", f"prints {text_of(template(E, st, c.args[0]))!r} to the standard output")
        raise Infeasible()

    def write_fmt(self, E, st, c):
        a = c.args[0]
        items = template(E, st, c.args[1])
        if isinstance(a, tuple) and a[0] == "mref":
            v = E.deref(st, a)
            if isinstance(v, tuple) and v[:2] == ("seq", "string"):
                if st.ghost["WANT"][2]:
                    E.wr(st, ("place", a[1], a[2]), ("seq", "string", v[2] + tuple(items)))
                else:
                    self.out(E, st, items)
                    E.wr(st, ("place", a[1], a[2]), ("seq", "string", (("t", "report", (), "char"),)))
                return ok(UNIT)
            if v == ("s", "Formatter", 0):
                return self.to_formatter(E, st, items)
        return NotImplemented

    def io_write(self, E, st, c):
        if is_stderr(E, st, c.args[0]):
            self.out(E, st, template(E, st, c.args[1]))
            return ok(UNIT)
        return NotImplemented

    def to_formatter(self, E, st, items):
        st.ghost["OUT"] = ("seq", "out", st.ghost["OUT"][2] + tuple(items))
        return ok(UNIT)

    def write_str(self, E, st, c):
        if behind(E, st, c.args[0]) != ("s", "Formatter", 0):
            return NotImplemented
        v = c.args[1]
        return self.to_formatter(E, st, [v] if isinstance(v, int) else flat(E, st, v))

    def display(self, E, st, c):
        """Display of a part, to the formatter under analysis"""
        if behind(E, st, c.args[1]) != ("s", "Formatter", 0):
            return NotImplemented
        return self.to_formatter(E, st, flat(E, st, c.args[0]))

    # -- strings -------------------------------------------------------------------------------

    def format(self, E, st, c):
        return ("seq", "string", tuple(template(E, st, c.args[0])))

    def to_string(self, E, st, c):
        return ("seq", "string", tuple(flat(E, st, c.args[0])))

    def colour(self, E, st, c):
        v = behind(E, st, c.args[0])
        if v[0] == "seq" and v[1] in ("str", "string"):
            return ("seq", "string", v[2])
        raise Undecided("colour of " + show(v))

    def replace(self, E, st, c):
        """what a line looks like after tabs have been widened is not judged"""
        v = behind(E, st, c.args[0])
        return ("seq", "string", v[2]) if v[0] == "seq" and all(isinstance(x, tuple) and x[0] == "t" for x in v[2]) \
            else ("seq", "string", (ANY,))

    def repeat(self, E, st, c):
        return ("seq", "string", (ANY,))

    def path(self, E, st, c):
        return ("t", "path", (behind(E, st, c.args[0]),), "path")

    # -- the file ------------------------------------------------------------------------------

    def line(self, E, st, c, skip=0):
        g = st.ghost
        at = lin_add(g["POS"], skip)
        g["POS"] = lin_add(at, 1)
        k = E.choice(st, "line", 3)
        st.note(f"{c.frame.body.span[0]}:{c.line}: " + ("a line is read", "there is no such line", "the line is unreadable")[k])
        g["HAVE"] = at if k == 0 else None
        if k == 0:
            return some(ok(("seq", "string", (("t", "linetext", (at,), "char"),))))
        if k == 2:
            g["UNREADABLE"] = 1
        return NONE if k == 1 else some(err(("s", "io::Error", fresh_id())))

    def next(self, E, st, c):
        if c28.is_lines(E, st, c.args[0]):
            return self.line(E, st, c)
        return c28.on_next(E, st, c)

    def nth(self, E, st, c):
        return self.line(E, st, c, c.args[1]) if c28.is_lines(E, st, c.args[0]) else NotImplemented

    def skip(self, E, st, c):
        if not c28.is_lines(E, st, c.args[0]):
            return NotImplemented
        st.ghost["POS"] = lin_add(st.ghost["POS"], c.args[1])
        return c.args[0]

    def open(self, E, st, c):
        if E.choice(st, "open", 2):
            st.ghost["UNREADABLE"] = 1
            return err(("s", "io::Error", fresh_id()))
        return ok(("s", "std::fs::File", fresh_id()))

    def hooks(self):
        h = dict(c28.HOOKS)
        del h["std::str::chars"]        # how long a line is matters for the underline only: one character
        del h["std::fmt::rt::Argument::from_usize"]
        del h["std::ops::Index::index"]
        for n in ("std::io::_eprint", "std::io::stdio::_eprint"):
            h[n] = self.print
        for n in ("std::io::_print", "std::io::stdio::_print"):
            h[n] = self.stdout
        for n in COLOURS:
            h["colored::Colorize::" + n] = self.colour
        h.update({"std::fmt::Write::write_fmt": self.write_fmt, "std::fmt::Formatter::write_fmt": self.write_fmt,
                  "std::io::Write::write_fmt": self.io_write,
                  "std::fmt::Formatter::write_str": self.write_str, "std::fmt::Formatter::pad": self.write_str,
                  "std::fmt::Formatter::write_char": self.write_str,
                  "std::fmt::Display::fmt": self.display,
                  "std::fmt::format": self.format, "std::string::ToString::to_string": self.to_string,
                  "std::str::replace": self.replace, "std::str::methods::replace": self.replace,
                  "std::str::repeat": self.repeat, "std::fs::File::open": self.open, "std::path::Path::display": self.path,
                  "std::iter::Iterator::next": self.next, "std::iter::Iterator::nth": self.nth,
                  "std::iter::Iterator::skip": self.skip})
        return h


def is_stderr(E, st, v):
    v = behind(E, st, v)
    return isinstance(v, tuple) and v[0] == "s" and "Stderr" in str(v[1])


def numeric(E, st, v):
    return isinstance(v, int) or v[0] == "lin" or v[0] == "s" and str(v[1]).startswith("int:") or \
        v[0] == "t" and str(v[3]).startswith("int:")


def same(E, st, x, y):
    if x == y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple) and x[1] == y[1] == "shown" and x[2][1] == y[2][1]:
        a, b = x[2][0], y[2][0]
        if numeric(E, st, a) and numeric(E, st, b):
            return bool(E.decide(st, E.cmp(st, "eq", a, b)))
    return False
