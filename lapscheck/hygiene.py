"""User modules full of names the macros' own code uses, written for the compiler to check."""

KIND = '''
#[token_kind]
#[derive(Debug, Tokenize)]
pub enum Tk {
  #[skip(r"\\s+")]
  _Skip,
  /// Number {}.
  #[regex(r"[0-9]+")]
  Num(i32),
  #[regex(r"[a-z]+", %s)]
  Id(Name),
  #[regex(r"[()]")]
  Paren(char),
  #[regex("if")]
  If,
  #[regex("else")]
  Else(),
  #[eof]
  Eof,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Name(u8);
impl std::fmt::Display for Name {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(&self.0, f) }
}
#[allow(dead_code)]
fn name(_: &str) -> std::option::Option<Name> { std::option::Option::Some(Name(0)) }
'''
AST = '''
type Tn = laps::token::Token<Tk>;
token_ast! {
  %s macro Ast<Tk> {
    [num] => { kind: Tk::Num(_), prompt: "number {}" },
    [zero] => { kind: Tk::Num(n) if *n == 0, prompt: "zero" },
    [if] => { kind: Tk::If },
    [lp] => { kind: Tk::Paren('(') },
    [either] => { kind: Tk::Paren('(') | Tk::Paren(')'), prompt: "paren", },
  }
}
#[derive(Parse, Spanned)]
#[token(Tn)]
pub struct If { pub if_: Ast![if], pub cond: Expr, #[try_span] pub other: std::option::Option<Ast![num]> }
#[derive(Parse, Spanned)]
#[token(Tn)]
#[starts_with(Ast![if], Ast![zero])]
pub struct With(pub If, pub Ast![zero]);
#[derive(Parse, Spanned)]
#[token(Tn)]
pub enum Expr {
  Num(Ast![num]),
  Paren(Ast![lp], std::boxed::Box<Expr>, Ast![either]),
  Named { a: std::boxed::Box<If> },
}
#[derive(Parse)]
#[token(Tn)]
pub struct Chain { pub first: If, pub second: Expr }
#[derive(Parse, Spanned)]
#[token(Tn)]
pub enum Any { First(If), Second(Expr), Third(With) }
#[derive(Parse)]
#[token(Tn)]
pub struct Unit;
#[derive(Spanned)]
pub struct Gen<'a, T: laps::span::Spanned, U: Clone + laps::span::Spanned, const N: usize = 3>(pub T, pub &'a U)
where T: Clone;
#[derive(Parse)]
#[token(Tn)]
pub struct Lists<const N: usize>(pub std::vec::Vec<If>, pub laps::ast::OptSepSeq<Expr, Ast![if]>);
'''
LOG = '''
pub fn logs(s: &laps::span::Span) -> laps::span::Result<i32> {
  laps::log_error!(s, "{}", 1);
  laps::log_warning!(s, "x");
  let _e: laps::span::Error = laps::log_fatal_error!(s, "{s:?}");
  laps::log_raw_error!(s, "{}", 1);
  laps::log_raw_warning!(s, "x");
  laps::log_raw_fatal_error!(s, "y");
  laps::return_error!(s, "x{}", 1)
}
pub fn unwraps(a: Ast![num], b: &Ast![num]) -> i32 {
  let r: &i32 = b.unwrap_ref();
  *r + a.unwrap::<i32, _>()
}
'''
PRE = "use laps::prelude::*;\n"


def full(extra="", parser="name", vis="pub(crate)", pre=PRE):
    return pre + extra + KIND % parser + AST % vis + LOG


def programs():
    """{name: program}; every one of them has to compile"""
    C = {"plain": full()}
    derives = ("Clone", "PartialEq", "Debug", "Parse", "Spanned", "Tokenize")
    types = ["Option", "Result", "Vec", "String", "Box", "From", "Into", "TryFrom", "TryInto", "Iterator",
             "IntoIterator", "AsRef", "ToString", "ToOwned", "Default", "FromStr", "Span", "Token", "Kind",
             "TokenResult", "LexerResult", "InputStream", "TokenStream", "Parse", "Spanned", "TrySpan", "Tokenize",
             "Tokenizer", "Location", "Error", "Lexer", "Lookahead", "Drop", "Fn", "Send", "Copy", "TS", "T", "E", "I",
             "Self_", "Display", "Formatter", "Arguments", "Cow", "Arc", "Rc", "Range", "RangeInclusive"]
    for n in types:
        if n not in derives:
            C["type called " + n] = full("pub struct %s;\n" % n)
        C["trait called " + n] = full("pub trait %s { fn zzz(&self) {} }\n" % n)
        C["alias called " + n] = full("pub type %s = u8;\n" % n)
    for n in ("Some", "None", "Ok", "Err"):
        C["constructor called " + n] = full("pub struct %s;\n" % n)
        C["function called " + n] = full("#[allow(non_snake_case)] pub fn %s() {}\n" % n)
        C["constant called " + n] = full("#[allow(non_upper_case_globals)] pub const %s: u8 = 1;\n" % n)
    for n in ("matches", "write", "format", "format_args", "vec", "assert", "panic", "unreachable", "println", "todo",
              "return_error", "log_error", "concat", "r#try", "debug_assert", "stringify", "unimplemented"):
        C["macro called " + n] = full(
            "#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { compile_error!(\"user macro\") } }\n" % n)
    lower = ["table", "equiv_id", "is_accept", "token_result", "is_final", "next_token_impl", "span", "buf", "tag",
             "state", "parse", "maybe", "next_token", "unwrap", "unwrap_ref", "input", "c", "v", "f", "token", "tokens",
             "is_eof", "last_state", "equiv", "id", "loc", "from", "try_from", "fmt"]
    for n in lower:
        C["function called " + n] = full("pub fn %s() {}\n" % n)
        C["module called " + n] = full("pub mod %s {}\n" % n)
        C["parser called " + n] = full(
            "fn %s(_: &str) -> std::option::Option<Name> { std::option::Option::Some(Name(0)) }\n" % n, n)
    for n in ("laps_macros", "laps_regex", "core", "alloc", "prelude", "ast", "lexer", "reader", "fmt", "convert",
              "option", "result"):
        C["module called " + n] = full("pub mod %s {}\n" % n)
    for n in ("Kind", "Token", "Span", "LexerResult", "TokenResult", "String", "Vec", "Option", "Result", "InputStream",
              "Location", "Error"):
        C["parser of a type called " + n] = full(
            "pub struct %s; impl %s { fn get(_: &str) -> std::option::Option<Name> "
            "{ std::option::Option::Some(Name(0)) } }\n" % (n, n), n + "::get")
    C["parser naming the standard Result"] = full(
        "", "|s: &str| { let r: Result<u8, std::num::ParseIntError> = s.parse(); r.ok().map(Name) }")
    C["parser naming Option"] = full(
        "", "|s: &str| -> Option<Name> { if s.is_empty() { None } else { Some(Name(s.len() as u8)) } }")
    C["parser naming the user's alias"] = full(
        "pub type Token = laps::token::Token<Tk>; pub type Kind = Tk;\n",
        "|s| { let _t: Option<Token> = None; let _k: Option<Kind> = None; name(s) }")
    for n in ("LIMIT", "TAG", "N", "I", "TS"):
        C["parser naming a constant called " + n] = full("const %s: u8 = 3;\n" % n, "|_: &str| Some(Name(%s))" % n)
    C["parser of lines"] = full("", "|s: &str| { for c in s.chars() { if c == 'x' { return None; } } Some(Name(1)) }")
    for v in ("", "pub", "pub(crate)", "pub(self)"):
        C["macro of visibility '%s'" % v] = full(vis=v)
        C["nested macro of visibility '%s'" % v] = "pub mod a { pub mod b {" + full(vis=v) + "} }"
    for v in ("pub(super)", "pub(in crate::a)"):
        C["nested macro of visibility '%s'" % v] = "pub mod a { pub mod b {" + full(vis=v) + "} }"
    use = "pub fn g(a: %sAst![num], b: &%sAst![num]) -> &i32 { let _: i32 = a.unwrap(); let _ = &b.0; b.unwrap_ref() }\n"
    far = "type Tn = laps::token::Token<%sTk>;\n#[derive(Parse, Spanned)] #[token(Tn)] pub struct Far(pub %sAst![num]);\n"
    K = KIND % "name"
    one = '''token_ast! { %s macro %sAst<Tk> { [num] => { kind: Tk::Num(_), prompt: "n" } } }\n'''
    C["macro used by its parent"] = PRE + "pub mod a { use laps::prelude::*;" + K + one % ("pub(super)", "crate::a::") \
        + "}\n" + use % ("a::", "a::") + far % ("a::", "a::")
    C["macro used by the crate"] = "pub mod a { pub mod b { use laps::prelude::*;" + K \
        + one % ("pub(crate)", "crate::a::b::") + "} }\npub mod c { use laps::prelude::*;" \
        + use % ("crate::a::b::", "crate::a::b::") + far % ("crate::a::b::", "crate::a::b::") + "}\n"
    C["macro used by the module it is restricted to"] = \
        "pub mod a { use laps::prelude::*; pub mod b { use laps::prelude::*;" + K \
        + one % ("pub(in crate::a)", "crate::a::b::") + "}\n" + use % ("b::", "b::") + far % ("b::", "b::") + "}\n"
    C["exported macro"] = "#[macro_use] pub mod a { use laps::prelude::*;" + K + one % ("pub", "crate::a::") \
        + "}\npub mod c { use laps::prelude::*;" + use % ("", "") + far % ("crate::a::", "") + "}\n"
    C["private macro"] = "pub mod a { use laps::prelude::*;" + K + one % ("", "") + use % ("", "") + far % ("", "") + "}\n"
    C["nothing but the names used"] = full(
        pre="use laps::parse::Parse; use laps::span::Spanned; use laps::lexer::Tokenize; "
            "use laps::token::{token_ast, token_kind};\n")
    renamed = full(pre="use laps::parse::Parse as P; use laps::span::Spanned as S; use laps::lexer::Tokenize as T; "
                       "use laps::token::{token_ast as ta, token_kind as tk};\n")
    for a, b in (("(Parse, Spanned)", "(P, S)"), ("derive(Parse)", "derive(P)"), ("derive(Spanned)", "derive(S)"),
                 ("Tokenize)", "T)"), ("token_ast!", "ta!"), ("[token_kind]", "[tk]")):
        renamed = renamed.replace(a, b)
    C["renamed imports"] = renamed
    paths = full(pre="")
    for a, b in (("(Parse, Spanned)", "(laps::parse::Parse, laps::span::Spanned)"),
                 ("derive(Parse)", "derive(laps::parse::Parse)"), ("derive(Spanned)", "derive(laps::span::Spanned)"),
                 ("Tokenize)", "laps::lexer::Tokenize)"), ("token_ast!", "laps::token::token_ast!"),
                 ("[token_kind]", "[laps::token::token_kind]")):
        paths = paths.replace(a, b)
    C["no imports"] = paths
    C["no implicit prelude"] = "#![no_implicit_prelude]\n" + full(
        pre="use ::std; use ::laps; use ::laps::prelude::*; use ::std::prelude::rust_2021::{derive, Clone, PartialEq, Debug};\n")
    C["raw identifiers"] = PRE + '''
#[token_kind] #[derive(Tokenize)] pub enum Tk {
  #[regex("a")] r#type, #[regex("[0-9]")] r#fn(u8), #[eof] r#Eof
}
token_ast! { pub(crate) macro Ast<Tk> { [r#type] => { kind: Tk::r#type }, [x] => { kind: Tk::r#fn(_), prompt: "n" } } }
#[derive(Parse, Spanned)] #[token(laps::token::Token<Tk>)]
pub struct S { pub r#struct: Ast![x], pub r#match: Ast![x] }
#[derive(Parse, Spanned)] #[token(laps::token::Token<Tk>)]
pub enum r#enum { r#A { r#in: Ast![x], #[try_span] r#ref: Option<Ast![r#type]> }, B(r#S) }
'''
    C["generic kind"] = PRE + '''
#[derive(Debug, Clone, PartialEq, Tokenize)]
pub enum G<T: std::str::FromStr, const N: usize> where T: Clone {
  #[regex("[0-9]+")] A(T), #[regex("[a-z]", |_| Some([0; N]))] B([u8; N]), #[skip(" ")] S, #[eof] E
}
'''
    C["kind with a lifetime"] = PRE + '''
#[derive(Debug, Clone, PartialEq, Tokenize)]
pub enum G<'a> { #[regex("[0-9]+", |_| Some("x"))] A(&'a str), #[eof] E }
'''
    C["byte kind"] = PRE + '''
#[derive(Debug, Clone, PartialEq, Tokenize)]
#[char_type(u8)] #[enable_par(false)]
pub enum G { #[regex("(?-u)[0-9]+", |b: &[u8]| Some(b.len()))] A(usize), #[eof] E() }
pub struct String; pub struct Vec;
'''
    C["large kind"] = PRE + "#[derive(Debug, Clone, PartialEq, Tokenize)]\npub enum G {\n" + "".join(
        '#[regex("%s%s%s")] V%d,\n' % (chr(97 + i % 26), "xyz"[i % 3], "abcdefghij"[i % 10] * (i // 26 + 1), i)
        for i in range(120)) + "#[eof] E }\n"
    C["generic nodes"] = PRE + '''
#[derive(Spanned)]
pub struct W<'a, A: Spanned + 'a, const N: usize>(pub &'a A) where A: Clone;
#[derive(Spanned)]
pub enum V<A, B: Clone> where A: Spanned, B: Spanned { A(A, B), B { b: B, #[doc = "x"] a: A } }
'''
    C["foreign attributes"] = PRE + '''
#[doc = "outer"] #[allow(dead_code)] #[derive(Clone, Debug)] #[derive(PartialEq, Tokenize)]
#[non_exhaustive] #[cfg_attr(all(), must_use)]
pub enum Tk {
  /// A {brace} and a %s.
  /// Second line.
  #[allow(dead_code)] #[doc(hidden)] #[regex("a")] A,
  #[doc(alias = "b")] #[regex("b")] B,
  #[doc = include_str!("program.rs")] #[regex("c")] C,
  #[eof] Eof,
}
'''
    for level in ("warnings", "unused", "unsafe_code", "nonstandard_style", "future_incompatible", "unused_results",
                  "trivial_casts", "unused_lifetimes", "rust_2018_idioms", "non_ascii_idents", "keyword_idents",
                  "unstable_features", "let_underscore_drop", "unreachable_pub", "unused_import_braces",
                  "unused_macro_rules", "missing_abi", "ffi_unwind_calls", "macro_use_extern_crate"):
        C["denying " + level] = "#![deny(%s)]\n" % level + full(vis="")
    C["denying missing_docs"] = "//! Docs.\n#![deny(missing_docs)]\n" + '''
use laps::prelude::*;
/// Kinds.
#[token_kind]
#[derive(Debug, Tokenize)]
pub enum Tk {
  /// A number.
  #[regex("[0-9]+")] Num(u8),
  /// The end.
  #[eof] Eof
}
token_ast! {
  /// Tokens.
  pub macro Ast<Tk> { [num] => { kind: Tk::Num(_), prompt: "n" }, [eof] => { kind: Tk::Eof } }
}
/// A node.
#[derive(Parse, Spanned)] #[token(laps::token::Token<Tk>)] pub struct S {
  /// A field.
  pub a: Ast![num]
}
'''
    own = "pub trait Node { fn %s(&self) -> u8 { 0 } }\nimpl Node for If {}\nimpl Node for Name {}\n"
    for m in ("maybe", "parse", "push", "unread", "into", "try_into", "try_from", "fmt", "eq", "clone", "result",
              "expect", "peek", "contains", "map", "kind"):
        C["user trait with a method " + m] = full(own % m)
    C["nodes with a function maybe"] = full(
        "impl If { pub fn maybe(_: u8) -> u8 { 3 } }\nimpl Expr { pub fn maybe(_: u8) -> u8 { 3 } }\n")
    return C


EDITIONS = {"2018": ("plain", "raw identifiers", "generic kind", "byte kind", "kind with a lifetime",
                     "macro used by the crate", "exported macro", "parser naming the standard Result"),
            "2024": ("plain", "raw identifiers", "generic kind", "byte kind", "kind with a lifetime",
                     "no implicit prelude", "macro used by the crate", "exported macro",
                     "parser naming the standard Result", "denying warnings")}
