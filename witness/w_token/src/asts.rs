//! C18: token ASTs, each with a hand-written test of the kinds it stands for.
use laps::parse::Parse;
use laps::span::{Result, Span, Spanned};
use laps::token::{token_ast, token_kind, Token, TokenStream};

#[derive(Debug, Clone, PartialEq)]
pub enum Opt {
  Has(u8),
  Not,
}
impl std::fmt::Display for Opt {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("opt")
  }
}

#[token_kind]
#[derive(Debug)]
pub enum Kind {
  /// Integer.
  Int(i64),
  /// Operator.
  Op(char),
  /// Small.
  Small(Opt),
  /// Flag.
  Flag(bool),
  /// Both.
  Both(u8, bool),
  /// Record.
  Rec { a: u8, b: bool },
  If,
  Else,
  /// Text.
  Text(String),
  End,
}

token_ast! {
  #[derive(Debug, Clone, PartialEq)]
  pub(crate) macro Tk<Kind> {
    [int] => { kind: Kind::Int(_), prompt: "integer" },
    [digit] => { kind: Kind::Int(0..=9) | Kind::Int(100), prompt: "digit", },
    [big] => { kind: Kind::Int(v) if *v > 1000, prompt: "big" },
    [odd] => { kind: Kind::Int(v) if *v == 7 || *v == 9, prompt: "odd" },
    [+] => { kind: Kind::Op('+') },
    [op] => { kind: Kind::Op('a'..='f' | '*'), prompt: "op" },
    [some] => { kind: Kind::Small(Opt::Has(_)), prompt: "some" },
    [zero] => { kind: Kind::Small(Opt::Has(0)) },
    [none] => { kind: Kind::Small(Opt::Not) },
    [flag] => { kind: Kind::Flag(f) if *f, prompt: "set" },
    [both] => { kind: Kind::Both(a, b) if *b && *a < 4, prompt: "both" },
    [rec] => { kind: Kind::Rec { b: true, .. }, prompt: "rec" },
    [key] => { kind: Kind::If | Kind::Else, prompt: "keyword" },
    [lead] => { kind: | Kind::If | Kind::End, prompt: "leading" },
    [if] => { kind: Kind::If },
    [end] => { kind: Kind::End },
    [text] => { kind: Kind::Text(_), prompt: "text" },
    [any] => { kind: _, prompt: "anything" },
    [bound] => { kind: k @ (Kind::Op(_) | Kind::Flag(_)) if matches!(k, Kind::Op('x') | Kind::Flag(false)), prompt: "bound" },
    [paren] => { kind: (Kind::End), prompt: "paren" },
    [brace] => { kind: Kind::Rec { a: 0..=3, .. }, prompt: "{a} or {{}}" },
    [fn] => { kind: Kind::r#Else },
    [open] => { kind: Kind::Op('{' | '}') | Kind::Text(_), prompt: "{" },
  }
}

pub fn want_int(k: &Kind) -> bool { if let Kind::Int(_) = k { true } else { false } }
pub fn want_digit(k: &Kind) -> bool { if let Kind::Int(v) = k { (*v >= 0 && *v < 10) || *v == 100 } else { false } }
pub fn want_big(k: &Kind) -> bool { if let Kind::Int(v) = k { *v >= 1001 } else { false } }
pub fn want_odd(k: &Kind) -> bool { if let Kind::Int(v) = k { *v == 9 || *v == 7 } else { false } }
pub fn want_plus(k: &Kind) -> bool { if let Kind::Op(c) = k { *c == '+' } else { false } }
pub fn want_op(k: &Kind) -> bool { if let Kind::Op(c) = k { *c == '*' || (*c >= 'a' && *c <= 'f') } else { false } }
pub fn want_some(k: &Kind) -> bool { if let Kind::Small(o) = k { matches!(o, Opt::Has(_)) } else { false } }
pub fn want_zero(k: &Kind) -> bool { if let Kind::Small(Opt::Has(n)) = k { *n == 0 } else { false } }
pub fn want_none(k: &Kind) -> bool { if let Kind::Small(o) = k { matches!(o, Opt::Not) } else { false } }
pub fn want_flag(k: &Kind) -> bool { if let Kind::Flag(f) = k { *f } else { false } }
pub fn want_both(k: &Kind) -> bool { if let Kind::Both(a, b) = k { *a <= 3 && *b } else { false } }
pub fn want_rec(k: &Kind) -> bool { if let Kind::Rec { a, b } = k { *b } else { false } }
pub fn want_key(k: &Kind) -> bool { match k { Kind::If => true, Kind::Else => true, _ => false } }
pub fn want_lead(k: &Kind) -> bool { match k { Kind::End => true, Kind::If => true, _ => false } }
pub fn want_if(k: &Kind) -> bool { match k { Kind::If => true, _ => false } }
pub fn want_end(k: &Kind) -> bool { match k { Kind::End => true, _ => false } }
pub fn want_text(k: &Kind) -> bool { match k { Kind::Text(_) => true, _ => false } }
pub fn want_any(k: &Kind) -> bool { true }
pub fn want_bound(k: &Kind) -> bool { match k { Kind::Op(c) => *c == 'x', Kind::Flag(f) => !*f, _ => false } }
pub fn want_brace(k: &Kind) -> bool { match k { Kind::Rec { a, .. } => *a < 4, _ => false } }
pub fn want_fn(k: &Kind) -> bool { match k { Kind::Else => true, _ => false } }
pub fn want_open(k: &Kind) -> bool { match k { Kind::Text(_) => true, Kind::Op(c) => *c == '{' || *c == '}', _ => false } }
pub fn want_paren(k: &Kind) -> bool { match k { Kind::End => true, _ => false } }

/// parse and predict behind a peek; what the token's kind asks for comes first
macro_rules! arm {
  ($m:ident, $t:ty, $want:ident) => {
    pub mod $m {
      use super::*;
      pub fn run_parse<TS: TokenStream<Token = Token<Kind>>>(tokens: &mut TS, k: &Kind) -> (bool, Result<$t>) {
        ($want(k), <$t>::parse(tokens))
      }
      pub fn run_maybe<TS: TokenStream<Token = Token<Kind>>>(tokens: &mut TS, k: &Kind) -> (bool, Result<bool>) {
        ($want(k), <$t>::maybe(tokens))
      }
      pub fn run_span(t: &$t) -> Span {
        t.span()
      }
    }
  };
}
macro_rules! value {
  ($m:ident, $t:ty, $v:ty) => {
    pub mod $m {
      use super::*;
      pub fn run_unwrap(t: $t) -> $v {
        t.unwrap::<$v, _>()
      }
      pub fn run_unwrap_ref<'a>(t: &'a $t) -> &'a $v {
        t.unwrap_ref::<&'a $v, _>()
      }
    }
  };
}

arm!(int, Tk![int], want_int);
arm!(digit, Tk![digit], want_digit);
arm!(big, Tk![big], want_big);
arm!(odd, Tk![odd], want_odd);
arm!(plus, Tk![+], want_plus);
arm!(op, Tk![op], want_op);
arm!(some, Tk![some], want_some);
arm!(zero, Tk![zero], want_zero);
arm!(none, Tk![none], want_none);
arm!(flag, Tk![flag], want_flag);
arm!(both, Tk![both], want_both);
arm!(rec, Tk![rec], want_rec);
arm!(key, Tk![key], want_key);
arm!(lead, Tk![lead], want_lead);
arm!(if_, Tk![if], want_if);
arm!(end, Tk![end], want_end);
arm!(text, Tk![text], want_text);
arm!(any, Tk![any], want_any);
arm!(bound, Tk![bound], want_bound);
arm!(paren, Tk![paren], want_paren);
arm!(open, Tk![open], want_open);
arm!(brace, Tk![brace], want_brace);
arm!(fn_, Tk![fn], want_fn);

value!(int_value, Tk![int], i64);
value!(digit_value, Tk![digit], i64);
value!(plus_value, Tk![+], char);
value!(op_value, Tk![op], char);
value!(some_value, Tk![some], Opt);
value!(flag_value, Tk![flag], bool);
value!(text_value, Tk![text], String);

pub mod other {
  use super::{token_ast, Span, Spanned, Kind, Parse, Result, Token, TokenStream, want_end, want_int};
  token_ast! {
    macro Local<Kind> {
      [int] => { kind: Kind::Int(_), prompt: "integer" },
      [end] => { kind: Kind::End },
    }
  }
  arm!(local_int, Local![int], want_int);
  arm!(local_end, Local![end], want_end);
}
