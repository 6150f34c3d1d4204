"""The token enums of the lexer witnesses: source text and reference come from the same list."""
import os
import random


class Lex:
    """variants: (name, form, attribute, doc); form is unit, tuple0 or val; attribute is
    ("regex", text, parser or None), ("skip", text), ("eof",) or None"""

    def __init__(self, name, variants, byte=False, par=None, generic=False):
        self.name, self.variants, self.byte, self.par = name, variants, byte, par

    def regexes(self):
        return [(i, v[2][1].removeprefix("(?-u)")) for i, v in enumerate(self.variants) if v[2] and v[2][0] in ("regex", "skip")]

    def eof(self):
        return next((i for i, v in enumerate(self.variants) if v[2] == ("eof",)), None)

    def source(self):
        out = ["#[derive(Tokenize)]"]
        if self.byte:
            out.append("#[char_type(u8)]")
        if self.par is not None:
            out.append(f"#[enable_par({'true' if self.par else 'false'})]")
        out.append(f"pub enum {self.name} {{")
        for name, form, attr, *doc in self.variants:
            for d in doc:
                out.append(f"  /// {d}")
            if attr and attr[0] == "regex":
                p = f", {attr[2]}" if attr[2] else ""
                out.append(f'  #[regex({lit(attr[1])}{p})]')
            elif attr and attr[0] == "skip":
                out.append(f"  #[skip({lit(attr[1])})]")
            elif attr:
                out.append("  #[eof]")
            out.append(f"  {name}{dict(unit='', tuple0='()', val='(Val)')[form]},")
        out.append("}")
        return "\n".join(out) + "\n"


def lit(s):
    n = 0
    while '"' + "#" * n in s:
        n += 1
    return "r" + "#" * n + '"' + s + '"' + "#" * n


def rx(t, parser=None):
    return ("regex", t, parser)


def sk(t):
    return ("skip", t)


EOF = ("Eof", "unit", ("eof",))


def simple(name, *res, **kw):
    return Lex(name, [(f"V{i}", "unit", rx(r)) for i, r in enumerate(res)], **kw)


BASIC = [
    Lex("Basic", [("Space", "unit", sk(r"\s+")), ("Keyword", "val", rx("if|else|while")),
                  ("Ident", "val", rx("[_a-zA-Z][_a-zA-Z0-9]*")), ("Num", "val", rx("[0-9]+", "parse_a")),
                  ("Op", "val", rx(r"==|=|\+=|<<|<")), ("Other", "val", rx(r".")), EOF]),
    Lex("NoEof", [("A", "unit", rx("ab+")), ("B", "tuple0", rx("a(bc)?")), ("C", "unit", None)]),
    Lex("TupleEof", [("End", "tuple0", ("eof",)), ("S", "unit", sk("[ \n]+|//[^\n]*")), ("D", "val", rx("/|[0-9]")),
                     ("Fn", "val", rx("x+", "parse_b"))]),
    Lex("Bytes", [("Space", "unit", sk("(?-u)[ \t]+")), ("Word", "val", rx("(?-u)[a-z]+", "parse_bytes")),
                  ("Pair", "tuple0", rx("(?-u)[0-9][0-9]")), ("Half", "unit", rx("(?-u)[0-9]")), EOF], byte=True),
    Lex("Quoted", [("Q", "val", rx('"[a-z]*"')), ("S", "unit", sk("( |--[^;]*;)+")), ("N", "val", rx("-?[0-9]+", "parse_a")),
                   EOF, ("Arrow", "unit", rx("->>"))]),
    Lex("QuotedBytes", [EOF, ("Q", "val", rx('(?-u)"[a-z]*"', "parse_bytes")), ("S", "tuple0", sk("aba")), ("T", "unit", rx("abc"))],
        byte=True),
    Lex("SkipOnly", [("S", "unit", sk("ab*c|d"))]),
    # variants that stand for no text between those that do; documentation of several kinds
    Lex("Gaps", [("Before", "unit", None), ("Vowel", "val", rx("[aeiou]+"), "A Vowel {} here..."), ("Middle", "tuple0", None),
                 ("Blank", "unit", sk(" +"), "Blank."), ("HTTPWord", "val", rx("x+y?", "parse_a"), "  First line, ", "", "third Line."),
                 EOF, ("Late", "unit", None), ("Digit", "val", rx("[0-9]"), "."), ("Last", "tuple0", rx("xz|a0"))]),
    Lex("BytesLit", [("A", "unit", rx("é|ée")), ("B", "unit", rx(r"(?-u)[\x00-\x7f]x")), ("S", "unit", sk(","))], byte=True),
]
LANG = [
    # repetition next to other constructs
    simple("StarAlt", "a*b|c", "(a|b)*c*d"),
    simple("AltStar", "(?:a*|b)c", "x(?:b|a*)y"),
    simple("Nested", "(?:(?:a*b)*c)*d", "(?:a|b*)+e"),
    simple("ConcatStar", "a*b*c*d", "(?:ab)*(?:ba)*e"),
    simple("StarOrd", "(?:b|a*)c", "(?:a*|b)d"),
    simple("OneOf", "(?:a*b)*x", "(?:ab*)*y"),
    simple("Optional", "a?b?c?d", "(?:ab)?(?:cd)?e"),
    simple("Counted", "a{3}", "b{2,4}", "(?:cd){1,3}e", "f{2,}", "g{0,2}h"),
    simple("PlusNest", "(?:a+b)+", "(?:c?d)+"),
    # overlapping alternatives: the first declared wins
    simple("Prec", "if|do", "[a-z]+", "[a-z0-9]+"),
    simple("PrecRev", "[a-z]", "a|b", "[ac]", "z+"),
    simple("SameTwice", "abc", "abc|abd", "ab[cde]"),
    simple("Dup", "a", "a", "bc", "b[c]"),
    simple("DupAlt", "if|b", "if", "c|b"),
    simple("DupNest", "xa|xb", "xb|xc", "x[abc]|y"),
    simple("SubAlt", "a|b", "a|c", "c|d", "d"),
    simple("ShareTail", "abz", "cbz", "dbz|ebz"),
    simple("ShareHead", "xab", "xac", "xa"),
    simple("AltTags", "ab|cd", "cd|ef", "ef|gh"),
    simple("Hidden", "[a-c]x", "bx", "[b-d]x"),
    # overlapping symbol ranges
    simple("Ranges", "[a-m]", "[h-z]", "[c-e]1", "[d-p]2"),
    simple("Multi", "[a-cx-z]0", "[bx]1", "[c-y]2", "[az]3"),
    simple("Negated", "[^a-f]", "[b-h]q", "[^x]r"),
    simple("Weave", "[az]0|m0|[cx]1|n1", "[by]2|[dw]2|k2"),
    simple("Holes", "[acegi]1", "[b-h]2", "[d-z]3", "[a-zA-Z]4"),
    simple("Touching", "[a-c]", "[d-f]+", "[b-e]x", "g"),
    simple("Edges", "[\\x{0}-\\x{5}]", "[\\x{d7f0}-\\x{e010}]a", "[^\\x{d7ff}]b", "[\\x{10fff0}-\\x{10ffff}]"),
    simple("Surrogate", "\\x{d7ff}", "\\x{e000}+", "[\\x{d7fe}-\\x{e001}]x"),
    simple("Dots", ".a", ".b.", "\\.c"),
    simple("Inside", "[a-z]1", "[f-h]2", "[g]3", "[g-k]4", "[a-g]5"),
    simple("Islands", "[adgj]x", "[a-j]y", "[dg]z", "[b-c]w"),
    # classes of symbols that turn out to be equivalent
    simple("Merge1", "ax|[bd]x"),
    simple("Merge2", "[ac]x|[bd]x", "ey|[fh]y"),
    simple("Merge3", "bx|[ac]x", "[bdf]y|[ceg]y|ay"),
    simple("Merge4", "[ac]x|[df]x|[bh]x", "[a-c]y|[e-g]y|dy"),
    simple("Merge5", "x[bd]|xa|x[ce]", "y[bd]*z|ya*z"),
    simple("Merge6", "[bdf]|a", "[bdf]x|ax", "[bdf]y|a[bdf]"),
    # common shapes
    # classes that only the minimal automaton shows to be interchangeable
    simple("Late1", "[ac]xx*|[bd]x+", "[ex]y*z|[fgw]yy*z|[fgw]z"),
    simple("Late2", "[az]xx*|cx+|mx|mxx+", "[bq]1{2,3}|[dp]11|[dp]111|[kn](1|11)1"),
    simple("Late3", "[a-cm-p]y*|[e-g](y+)?|[i-k](yy*)?|z(y*)?"),
    simple("LateBytes", "(?-u)[ace](xy)*x|[gik]x(yx)*|[moqs](xy)*x(yx)*", byte=True),
    simple("Late4", "[ace](xy)*x|[fhj]x(yx)*|[kmo](xy)*x(yx)*|[t-v]x"),
    simple("Number", r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([Ee][+-]?[0-9]+)?", r"-", r"0x[0-9a-f]+"),
    simple("Str", '"([^"\\\\]|\\\\["\\\\nrt])*"', "'[^']'"),
    simple("Comment", r"/\*([^*]|\*+[^*/])*\*+/", "/", r"\*"),
    simple("Ops", r"<|>|<=|>=|==|=|!=|!|<<|<<=|&&|\|\|"),
    simple("Single", "a"),
    simple("ByteRanges", "(?-u)[a-m]", "(?-u)[h-z]+", "(?-u)[c-e]1", "~", byte=True),
    simple("ByteEdges", r"(?-u)\x00[\x00-\x03]", r"(?-u)[\x7e\x7f]", r"(?-u)[\x01-\x7f]z", byte=True),
]
# as many states as one byte can number, one less, and one more
BIG = [simple(f"Big{n}", "a{%d}" % (n - 1)) for n in (255, 256, 257)]
PAR = [Lex(l.name + ("Par" if p else "Ser"), l.variants, l.byte, p)
       for l in LANG if l.name in ("Nested", "Ranges", "Number", "PrecRev", "Comment") for p in (True, False)]
PAR.append(simple("Wide", *[f"{a}{b}" for a in "abcdefghij" for b in "klm"][:24], "[a-z]+0", par=True))
# more symbols than the automatic choice builds serially on 8 processors
PAR += [Lex("Broad" + n, simple("", *["[" + "".join("\\x{%x}" % (0x4e00 + 2 * i) for i in range(1, 68) if i >> b & 1) + "]"
                                       for b in range(7)]).variants, False, p) for n, p in (("", None), ("Ser", False))]


def random_lexers(n, seed, tag, classes=False):
    """classes: of several scattered ranges"""
    r = random.Random(seed)

    def scattered():
        cs = [c for c in "abcdefghij" if r.randrange(2)] or ["a"]
        return "[" + "".join(cs) + "]"

    def regex(d):
        k = r.randrange(10 if d else 3)
        if k <= 2 and classes and r.randrange(4):
            return scattered()
        if k < 2:
            return r.choice("abcd")
        if k == 2:
            return r.choice(["[ab]", "[^a]", "[a-c]", ".", "[b-d]", "[ad]", "[ac]", "[c-f]", "[^b-d]"])
        if k < 5:
            return regex(d - 1) + regex(d - 1)
        if k < 7:
            return "(?:" + regex(d - 1) + "|" + regex(d - 1) + ")"
        return "(?:" + regex(d - 1) + ")" + r.choice(["*", "+", "?", "{2}", "{1,2}", "{2,}", "*"])
    out = []
    from .regexref import Dfa
    while len(out) < n:
        res = [regex(3) for _ in range(r.randint(1, 4))]
        d = Dfa(list(enumerate(res)))
        # an expression that matches the empty text makes the lexer yield tokens for ever
        if d.tag[d.init] is None and 3 <= d.size <= 14:
            out.append(simple(f"{tag}{len(out)}", *res))
    return out


RANDOM = random_lexers(30, 7, "R")
RANDOM += random_lexers(12, 5, "C", True)
MORE = random_lexers(150, 11, "M") + random_lexers(60, 13, "N", True)

PRELUDE = """//! Written by tools/mkwit.py from lapscheck/lexspecs.py.
#![allow(dead_code)]
use laps::prelude::*;
use std::str::FromStr;

pub struct Val(pub u64);

impl FromStr for Val {
  type Err = ();
  fn from_str(_: &str) -> Result<Self, ()> { Err(()) }
}

pub fn parse_a(_: &str) -> Option<Val> { None }
pub fn parse_b(_: &str) -> Option<Val> { None }
pub fn parse_bytes(_: &[u8]) -> Option<Val> { None }

"""


def write(path, lexers):
    with open(path, "w") as f:
        f.write(PRELUDE + "\n".join(l.source() for l in lexers))


QUICK = BASIC + LANG + BIG + PAR + RANDOM
