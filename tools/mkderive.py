#!/usr/bin/env python3
"""Writes the witnesses of derive(Parse) and derive(Spanned): declarations of every shape."""
import itertools, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "witness/w_derive/src")
HEAD = "//! Written by tools/mkderive.py.\n#![allow(unused, deprecated)]\n"


def spanned():
    o = [HEAD, "use laps::span::{Spanned, TrySpan};\nuse laps::ast::*;\nuse laps::token::Token;\n"]
    P = ["A", "B", "C", "D", "E"]

    def gen(flags):
        ps = [(p if f == 0 else "O" + p) for p, f in zip(P, flags)]
        return ps, ", ".join(f"{p}: {'TrySpan' if p[0] == 'O' else 'Spanned'}" for p in ps)

    def body(flags, named, extra=""):
        ps, _ = gen(flags)
        fs = []
        for i, (p, f) in enumerate(zip(ps, flags)):
            a = "#[try_span] " if f else ""
            fs.append(f"{a}{'f%d: ' % i if named else ''}{p}")
        return ("{ " + ", ".join(fs) + " }") if named else "(" + ", ".join(fs) + ")"

    n = 0
    for k in range(1, 6):
        for flags in itertools.product((0, 1), repeat=k):
            if all(flags):
                continue
            named = n % 2
            ps, bounds = gen(flags)
            o.append(f"#[derive(Spanned)]\npub struct S{n}<{bounds}> {body(flags, named)}" + ("" if named else ";"))
            n += 1
    # enumerations: variants with their own placement
    combos = [[(0,)], [(0, 0), (1, 0)], [(0, 1), (1, 0, 1), (0,)], [(1, 1, 0), (0, 1, 1), (0, 0, 0), (1, 0, 0)],
              [(0, 0, 1, 1), (1, 1, 0, 0), (0, 1, 0, 1), (1, 0, 1, 0), (0,)]]
    for i, vs in enumerate(combos):
        params = sorted({p for v in vs for p in gen(v)[0]})
        bounds = ", ".join(f"{p}: {'TrySpan' if p[0] == 'O' else 'Spanned'}" for p in params)
        arms = []
        for j, v in enumerate(vs):
            named = (i + j) % 2
            arms.append(f"  V{j}{' ' if named else ''}{body(v, named)},")
        o.append(f"#[derive(Spanned)]\npub enum E{i}<{bounds}> {{\n" + "\n".join(arms) + "\n}")
    o.append("""
#[derive(Spanned)]
pub struct Tok<K>(Token<K>, Token<K>);
#[derive(Spanned)]
pub struct Wrapped<A: Spanned, B: Spanned>(#[try_span] Option<A>, Box<B>, #[try_span] Vec<A>);
#[derive(Spanned)]
pub struct Lists<A: Spanned, B: Spanned, S: Spanned> {
  #[try_span]
  head: SepSeq<A, S>,
  mid: NonEmptySeq<B>,
  #[try_span]
  tail: OptSepSeq<A, S>,
}
#[derive(Spanned)]
pub struct Nested<A: Spanned, B: Spanned>(#[try_span] Option<Option<A>>, (B, u8, A), #[try_span] Option<Vec<B>>);
#[derive(Spanned)]
pub enum Rec<A: Spanned, B: Spanned> {
  Leaf(A),
  Node(Box<Rec<A, B>>, B, Box<Rec<A, B>>),
  Opt {
    #[try_span]
    l: Option<Box<Rec<A, B>>>,
    b: B,
    #[try_span]
    r: Option<Box<Rec<A, B>>>,
  },
}
#[derive(Spanned)]
pub struct Life<'a, A: Spanned + 'a, const N: usize>
where
  A: Clone,
{
  first: Keep<'a, A, N>,
  #[try_span]
  last: Option<A>,
}
pub struct Keep<'a, A, const N: usize>(&'a A);
#[derive(Spanned)]
pub struct Raw<A: Spanned, B: Spanned, OA: TrySpan> {
  #[try_span]
  r#type: OA,
  r#fn: A,
  _fn: B,
  r#in: B,
  #[try_span]
  span: OA,
}
#[derive(Spanned)]
pub enum RawE<A: Spanned, B: Spanned, OA: TrySpan> {
  r#match { r#ref: B, _ref: A },
  r#Struct {
    #[try_span]
    first: OA,
    last: B,
  },
  Self_(#[try_span] OA, A, #[try_span] OA),
}
impl<'a, A: Spanned, const N: usize> Spanned for Keep<'a, A, N> {
  fn span(&self) -> laps::span::Span {
    self.0.span()
  }
}
""")
    return "\n".join(o)


TY = ["A", "B", "C", "D"]


def parse():
    o = [HEAD, "use laps::ast::*;\nuse laps::parse::Parse;\nuse laps::span::Result;\nuse laps::token::{Token, TokenStream, Tokenizer};\nuse std::marker::PhantomData;\n"]
    for t in TY:
        o.append(f"""pub struct {t};
impl<TS: TokenStream> Parse<TS> for {t} {{
  fn parse(tokens: &mut TS) -> Result<Self> {{
    tokens.next_token().map(|_| Self)
  }}
  fn maybe(tokens: &mut TS) -> Result<bool> {{
    Ok(true)
  }}
}}""")
    o.append("""pub struct H<T>(PhantomData<T>);
impl<TS: TokenStream, T> Parse<TS> for H<T> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self(PhantomData))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct L<'a, const N: usize>(PhantomData<&'a u8>);
impl<'a, TS: TokenStream, const N: usize> Parse<TS> for L<'a, N> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self(PhantomData))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
#[laps::token::token_kind]
#[derive(Debug)]
pub enum Kind {
  Int(i64),
  Key(String),
  Other(char),
  End,
}
laps::token::token_ast! {
  pub(crate) macro Tk<Kind> {
    [int] => { kind: Kind::Int(_), prompt: "integer" },
    [key] => { kind: Kind::Key(_), prompt: "key" },
    [+] => { kind: Kind::Other('+') },
    [end] => { kind: Kind::End },
  }
}
""")

    def fields(ts, named):
        if ts is None:
            return ""
        if named:
            return " { " + ", ".join(f"{'zyxwvut'[i % 7]}{i}: {t}" for i, t in enumerate(ts)) + " }"
        return "(" + ", ".join(ts) + ")"

    shapes = [None, (), ("A",), ("A", "B"), ("A", "A"), ("B", "A", "B"), ("A", "B", "C", "D"), ("A", "A", "A", "B", "A", "C"),
              tuple("ABCDDCBAABABC")]
    n = 0
    for ts in shapes:
        for named in ((0,) if ts is None else (0, 1)):
            o.append(f"#[derive(Parse)]\npub struct P{n}{fields(ts, named)}" + ("" if named else ";"))
            n += 1
    lib = [("Vec<A>", "B"), ("B", "Option<A>", "C"), ("Box<A>", "SepSeq<A, B>"), ("NonEmptySepList<A, B>", "(A, B, C)"),
           ("OptTokenPrefix<A, B>", "H<u8>"), ("Token![int]", "A", "Token![+]"), ("Token![end]",)]
    for i, ts in enumerate(lib):
        attr = "#[token(Token<Kind>)]\n" if any("Token!" in t for t in ts) else ""
        ts = [t.replace("Token!", "Tk!") for t in ts]
        o.append(f"#[derive(Parse)]\n{attr}pub struct Q{i}{fields(ts, i % 2)}" + ("" if i % 2 else ";"))
    enums = [
        [("A",)],
        [("A", "B"), ("C",)],
        [("A",), ("A", "B"), ("B",)],
        [None, ("A",)],
        [("A",), None, ("B",)],
        [("B", "A"), ("A", "A"), ("C", "B", "A"), None],
        [("A",), ("B", "A"), ("C",), ("D", "D"), ("A", "B", "C", "D")],
        [(), ("A",)],
        [("Vec<A>", "B"), ("B",), ("Box<C>", "A")],
        [("A",), ("B",), ("C",), ("D",), ("A", "B"), ("B", "C", "D"), ("C", "C"), ("D", "A", "A", "A", "A", "A", "A", "A", "A"), ("A", "D")],
    ]
    for i, vs in enumerate(enums):
        arms = []
        for j, v in enumerate(vs):
            arms.append(f"  V{j}{fields(v, (i + j) % 2 if v is not None else 0)},")
        o.append(f"#[derive(Parse)]\npub enum E{i} {{\n" + "\n".join(arms) + "\n}")
    o.append("""
#[derive(Parse)]
pub enum Rec {
  Leaf(A),
  Pair(B, Box<Rec>, C, Box<Rec>),
  Rest { more: Box<Rec> },
}
#[derive(Parse)]
pub struct G<T>(A, H<T>, B);
#[derive(Parse)]
pub enum G2<T: Clone, U>
where
  U: Copy,
{
  One { f: H<T>, g: A },
  Two(H<U>, H<T>),
  Three(B, H<U>),
}
#[derive(Parse)]
pub struct G3<'a, T, const N: usize>
where
  T: Clone + 'a,
{
  l: L<'a, N>,
  a: A,
  h: H<&'a T>,
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int])]
pub struct W0(A, B);
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![key], Tk![+])]
pub struct W1 {
  first: B,
  second: A,
}
#[derive(Parse)]
#[starts_with(Tk![key], Tk![int], Tk![end])]
#[token(Token<Kind>)]
pub enum W2 {
  One(A, B),
  Two(C),
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![+], Tk![+])]
pub struct W3;
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int], Tk![key], Tk![+], Tk![end], Tk![int])]
pub struct W5(A);
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![key], Tk![key], Tk![key], Tk![int], Tk![+], Tk![+], Tk![end], Tk![int], Tk![key])]
pub enum W6 {
  One(A),
  Two(B),
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int], Tk![key])]
pub enum W4<T> {
  One(H<T>),
  Two(B, A),
}
// generic parameters with defaults and bounds, next to a given token
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![end])]
pub struct W7<T: Clone = u8, const N: usize = 2>
where
  Option<T>: Clone,
  [T; N]: Copy,
{
  tokens: H<T>,
  r#type: B,
  ts: H<[T; N]>,
}
#[derive(Parse)]
#[token(Token<Kind>)]
pub enum G4<T>
where
  T: Iterator<Item = u8>,
{
  r#fn { r#in: Tk![key], r#as: H<T> },
  _1(Tk![+], Tk![end]),
  Self_(B, Tk![int], H<T>),
}
""")
    return "\n".join(o)


for n, f in (("spanned", spanned), ("parsers", parse)):
    open(os.path.join(D, n + ".rs"), "w").write(f() + "\n")
open(os.path.join(D, "lib.rs"), "w").write("//! Declarations of every shape.\n#![allow(unused)]\nuse laps::prelude::*;\npub mod parsers;\npub mod spanned;\n")
