//! C19, C25: documentation and prompts are text, whatever characters they contain.
#![allow(dead_code, private_interfaces)]
use laps::prelude::*;
use laps::token::{token_ast, token_kind};

#[token_kind]
#[derive(Debug)]
pub enum Braces {
  /// An {open} brace.
  Open,
  /// {}
  Pair,
  /// }{ with a value {v}.
  Value(u8),
  /// {{Doubled}}.
  Doubled,
  /// Set {0}.
  Set,
  /// Braced record {a}.
  Rec { a: u8 },
}

type Token = laps::token::Token<Braces>;

token_ast! {
  macro BracesToken<Braces> {
    [open] => { kind: Braces::Open, prompt: "`{`" },
    [pair] => { kind: Braces::Pair, prompt: "{}" },
    [value] => { kind: Braces::Value(_), prompt: "}{0}{" },
  }
}

#[derive(Parse)]
#[token(Token)]
struct All(BracesToken![open], BracesToken![pair], BracesToken![value]);

#[token_kind]
#[derive(Tokenize)]
enum Lexed {
  /// Number {n}.
  #[regex(r"[0-9]+")]
  Int(i32),
  /// }{ end {}.
  #[eof]
  Eof,
}
