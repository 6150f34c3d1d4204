//! Written by tools/mkderive.py.
#![allow(unused, deprecated)]

use laps::ast::*;
use laps::parse::Parse;
use laps::span::Result;
use laps::token::{Token, TokenStream, Tokenizer};
use std::marker::PhantomData;

pub struct A;
impl<TS: TokenStream> Parse<TS> for A {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self)
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct B;
impl<TS: TokenStream> Parse<TS> for B {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self)
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct C;
impl<TS: TokenStream> Parse<TS> for C {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self)
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct D;
impl<TS: TokenStream> Parse<TS> for D {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self)
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct H<T>(PhantomData<T>);
impl<TS: TokenStream, T> Parse<TS> for H<T> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self(PhantomData))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
pub struct L<'a, const N: usize>(PhantomData<&'a u8>);
impl<'a, TS: TokenStream, const N: usize> Parse<TS> for L<'a, N> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.next_token().map(|_| Self(PhantomData))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(true)
  }
}
#[laps::token::token_kind]
#[derive(Debug)]
pub enum Kind {
  Int(i64),
  Key(String),
  Other(char),
  End,
}
laps::token::token_ast! {
  pub(crate) macro Tk<Kind> {
    [int] => { kind: Kind::Int(_), prompt: "integer" },
    [key] => { kind: Kind::Key(_), prompt: "key" },
    [+] => { kind: Kind::Other('+') },
    [end] => { kind: Kind::End },
  }
}

#[derive(Parse)]
pub struct P0;
#[derive(Parse)]
pub struct P1();
#[derive(Parse)]
pub struct P2 {  }
#[derive(Parse)]
pub struct P3(A);
#[derive(Parse)]
pub struct P4 { z0: A }
#[derive(Parse)]
pub struct P5(A, B);
#[derive(Parse)]
pub struct P6 { z0: A, y1: B }
#[derive(Parse)]
pub struct P7(A, A);
#[derive(Parse)]
pub struct P8 { z0: A, y1: A }
#[derive(Parse)]
pub struct P9(B, A, B);
#[derive(Parse)]
pub struct P10 { z0: B, y1: A, x2: B }
#[derive(Parse)]
pub struct P11(A, B, C, D);
#[derive(Parse)]
pub struct P12 { z0: A, y1: B, x2: C, w3: D }
#[derive(Parse)]
pub struct P13(A, A, A, B, A, C);
#[derive(Parse)]
pub struct P14 { z0: A, y1: A, x2: A, w3: B, v4: A, u5: C }
#[derive(Parse)]
pub struct P15(A, B, C, D, D, C, B, A, A, B, A, B, C);
#[derive(Parse)]
pub struct P16 { z0: A, y1: B, x2: C, w3: D, v4: D, u5: C, t6: B, z7: A, y8: A, x9: B, w10: A, v11: B, u12: C }
#[derive(Parse)]
pub struct Q0(Vec<A>, B);
#[derive(Parse)]
pub struct Q1 { z0: B, y1: Option<A>, x2: C }
#[derive(Parse)]
pub struct Q2(Box<A>, SepSeq<A, B>);
#[derive(Parse)]
pub struct Q3 { z0: NonEmptySepList<A, B>, y1: (A, B, C) }
#[derive(Parse)]
pub struct Q4(OptTokenPrefix<A, B>, H<u8>);
#[derive(Parse)]
#[token(Token<Kind>)]
pub struct Q5 { z0: Tk![int], y1: A, x2: Tk![+] }
#[derive(Parse)]
#[token(Token<Kind>)]
pub struct Q6(Tk![end]);
#[derive(Parse)]
pub enum E0 {
  V0(A),
}
#[derive(Parse)]
pub enum E1 {
  V0 { z0: A, y1: B },
  V1(C),
}
#[derive(Parse)]
pub enum E2 {
  V0(A),
  V1 { z0: A, y1: B },
  V2(B),
}
#[derive(Parse)]
pub enum E3 {
  V0,
  V1(A),
}
#[derive(Parse)]
pub enum E4 {
  V0(A),
  V1,
  V2(B),
}
#[derive(Parse)]
pub enum E5 {
  V0 { z0: B, y1: A },
  V1(A, A),
  V2 { z0: C, y1: B, x2: A },
  V3,
}
#[derive(Parse)]
pub enum E6 {
  V0(A),
  V1 { z0: B, y1: A },
  V2(C),
  V3 { z0: D, y1: D },
  V4(A, B, C, D),
}
#[derive(Parse)]
pub enum E7 {
  V0 {  },
  V1(A),
}
#[derive(Parse)]
pub enum E8 {
  V0(Vec<A>, B),
  V1 { z0: B },
  V2(Box<C>, A),
}
#[derive(Parse)]
pub enum E9 {
  V0 { z0: A },
  V1(B),
  V2 { z0: C },
  V3(D),
  V4 { z0: A, y1: B },
  V5(B, C, D),
  V6 { z0: C, y1: C },
  V7(D, A, A, A, A, A, A, A, A),
  V8 { z0: A, y1: D },
}

#[derive(Parse)]
pub enum Rec {
  Leaf(A),
  Pair(B, Box<Rec>, C, Box<Rec>),
  Rest { more: Box<Rec> },
}
#[derive(Parse)]
pub struct G<T>(A, H<T>, B);
#[derive(Parse)]
pub enum G2<T: Clone, U>
where
  U: Copy,
{
  One { f: H<T>, g: A },
  Two(H<U>, H<T>),
  Three(B, H<U>),
}
#[derive(Parse)]
pub struct G3<'a, T, const N: usize>
where
  T: Clone + 'a,
{
  l: L<'a, N>,
  a: A,
  h: H<&'a T>,
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int])]
pub struct W0(A, B);
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![key], Tk![+])]
pub struct W1 {
  first: B,
  second: A,
}
#[derive(Parse)]
#[starts_with(Tk![key], Tk![int], Tk![end])]
#[token(Token<Kind>)]
pub enum W2 {
  One(A, B),
  Two(C),
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![+], Tk![+])]
pub struct W3;
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int], Tk![key], Tk![+], Tk![end], Tk![int])]
pub struct W5(A);
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![key], Tk![key], Tk![key], Tk![int], Tk![+], Tk![+], Tk![end], Tk![int], Tk![key])]
pub enum W6 {
  One(A),
  Two(B),
}
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![int], Tk![key])]
pub enum W4<T> {
  One(H<T>),
  Two(B, A),
}
// generic parameters with defaults and bounds, next to a given token
#[derive(Parse)]
#[token(Token<Kind>)]
#[starts_with(Tk![end])]
pub struct W7<T: Clone = u8, const N: usize = 2>
where
  Option<T>: Clone,
  [T; N]: Copy,
{
  tokens: H<T>,
  r#type: B,
  ts: H<[T; N]>,
}
#[derive(Parse)]
#[token(Token<Kind>)]
pub enum G4<T>
where
  T: Iterator<Item = u8>,
{
  r#fn { r#in: Tk![key], r#as: H<T> },
  _1(Tk![+], Tk![end]),
  Self_(B, Tk![int], H<T>),
}

