//! Written by tools/mkderive.py.
#![allow(unused, deprecated)]

use laps::span::{Spanned, TrySpan};
use laps::ast::*;
use laps::token::Token;

#[derive(Spanned)]
pub struct S0<A: Spanned> (A);
#[derive(Spanned)]
pub struct S1<A: Spanned, B: Spanned> { f0: A, f1: B }
#[derive(Spanned)]
pub struct S2<A: Spanned, OB: TrySpan> (A, #[try_span] OB);
#[derive(Spanned)]
pub struct S3<OA: TrySpan, B: Spanned> { #[try_span] f0: OA, f1: B }
#[derive(Spanned)]
pub struct S4<A: Spanned, B: Spanned, C: Spanned> (A, B, C);
#[derive(Spanned)]
pub struct S5<A: Spanned, B: Spanned, OC: TrySpan> { f0: A, f1: B, #[try_span] f2: OC }
#[derive(Spanned)]
pub struct S6<A: Spanned, OB: TrySpan, C: Spanned> (A, #[try_span] OB, C);
#[derive(Spanned)]
pub struct S7<A: Spanned, OB: TrySpan, OC: TrySpan> { f0: A, #[try_span] f1: OB, #[try_span] f2: OC }
#[derive(Spanned)]
pub struct S8<OA: TrySpan, B: Spanned, C: Spanned> (#[try_span] OA, B, C);
#[derive(Spanned)]
pub struct S9<OA: TrySpan, B: Spanned, OC: TrySpan> { #[try_span] f0: OA, f1: B, #[try_span] f2: OC }
#[derive(Spanned)]
pub struct S10<OA: TrySpan, OB: TrySpan, C: Spanned> (#[try_span] OA, #[try_span] OB, C);
#[derive(Spanned)]
pub struct S11<A: Spanned, B: Spanned, C: Spanned, D: Spanned> { f0: A, f1: B, f2: C, f3: D }
#[derive(Spanned)]
pub struct S12<A: Spanned, B: Spanned, C: Spanned, OD: TrySpan> (A, B, C, #[try_span] OD);
#[derive(Spanned)]
pub struct S13<A: Spanned, B: Spanned, OC: TrySpan, D: Spanned> { f0: A, f1: B, #[try_span] f2: OC, f3: D }
#[derive(Spanned)]
pub struct S14<A: Spanned, B: Spanned, OC: TrySpan, OD: TrySpan> (A, B, #[try_span] OC, #[try_span] OD);
#[derive(Spanned)]
pub struct S15<A: Spanned, OB: TrySpan, C: Spanned, D: Spanned> { f0: A, #[try_span] f1: OB, f2: C, f3: D }
#[derive(Spanned)]
pub struct S16<A: Spanned, OB: TrySpan, C: Spanned, OD: TrySpan> (A, #[try_span] OB, C, #[try_span] OD);
#[derive(Spanned)]
pub struct S17<A: Spanned, OB: TrySpan, OC: TrySpan, D: Spanned> { f0: A, #[try_span] f1: OB, #[try_span] f2: OC, f3: D }
#[derive(Spanned)]
pub struct S18<A: Spanned, OB: TrySpan, OC: TrySpan, OD: TrySpan> (A, #[try_span] OB, #[try_span] OC, #[try_span] OD);
#[derive(Spanned)]
pub struct S19<OA: TrySpan, B: Spanned, C: Spanned, D: Spanned> { #[try_span] f0: OA, f1: B, f2: C, f3: D }
#[derive(Spanned)]
pub struct S20<OA: TrySpan, B: Spanned, C: Spanned, OD: TrySpan> (#[try_span] OA, B, C, #[try_span] OD);
#[derive(Spanned)]
pub struct S21<OA: TrySpan, B: Spanned, OC: TrySpan, D: Spanned> { #[try_span] f0: OA, f1: B, #[try_span] f2: OC, f3: D }
#[derive(Spanned)]
pub struct S22<OA: TrySpan, B: Spanned, OC: TrySpan, OD: TrySpan> (#[try_span] OA, B, #[try_span] OC, #[try_span] OD);
#[derive(Spanned)]
pub struct S23<OA: TrySpan, OB: TrySpan, C: Spanned, D: Spanned> { #[try_span] f0: OA, #[try_span] f1: OB, f2: C, f3: D }
#[derive(Spanned)]
pub struct S24<OA: TrySpan, OB: TrySpan, C: Spanned, OD: TrySpan> (#[try_span] OA, #[try_span] OB, C, #[try_span] OD);
#[derive(Spanned)]
pub struct S25<OA: TrySpan, OB: TrySpan, OC: TrySpan, D: Spanned> { #[try_span] f0: OA, #[try_span] f1: OB, #[try_span] f2: OC, f3: D }
#[derive(Spanned)]
pub struct S26<A: Spanned, B: Spanned, C: Spanned, D: Spanned, E: Spanned> (A, B, C, D, E);
#[derive(Spanned)]
pub struct S27<A: Spanned, B: Spanned, C: Spanned, D: Spanned, OE: TrySpan> { f0: A, f1: B, f2: C, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S28<A: Spanned, B: Spanned, C: Spanned, OD: TrySpan, E: Spanned> (A, B, C, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S29<A: Spanned, B: Spanned, C: Spanned, OD: TrySpan, OE: TrySpan> { f0: A, f1: B, f2: C, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S30<A: Spanned, B: Spanned, OC: TrySpan, D: Spanned, E: Spanned> (A, B, #[try_span] OC, D, E);
#[derive(Spanned)]
pub struct S31<A: Spanned, B: Spanned, OC: TrySpan, D: Spanned, OE: TrySpan> { f0: A, f1: B, #[try_span] f2: OC, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S32<A: Spanned, B: Spanned, OC: TrySpan, OD: TrySpan, E: Spanned> (A, B, #[try_span] OC, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S33<A: Spanned, B: Spanned, OC: TrySpan, OD: TrySpan, OE: TrySpan> { f0: A, f1: B, #[try_span] f2: OC, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S34<A: Spanned, OB: TrySpan, C: Spanned, D: Spanned, E: Spanned> (A, #[try_span] OB, C, D, E);
#[derive(Spanned)]
pub struct S35<A: Spanned, OB: TrySpan, C: Spanned, D: Spanned, OE: TrySpan> { f0: A, #[try_span] f1: OB, f2: C, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S36<A: Spanned, OB: TrySpan, C: Spanned, OD: TrySpan, E: Spanned> (A, #[try_span] OB, C, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S37<A: Spanned, OB: TrySpan, C: Spanned, OD: TrySpan, OE: TrySpan> { f0: A, #[try_span] f1: OB, f2: C, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S38<A: Spanned, OB: TrySpan, OC: TrySpan, D: Spanned, E: Spanned> (A, #[try_span] OB, #[try_span] OC, D, E);
#[derive(Spanned)]
pub struct S39<A: Spanned, OB: TrySpan, OC: TrySpan, D: Spanned, OE: TrySpan> { f0: A, #[try_span] f1: OB, #[try_span] f2: OC, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S40<A: Spanned, OB: TrySpan, OC: TrySpan, OD: TrySpan, E: Spanned> (A, #[try_span] OB, #[try_span] OC, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S41<A: Spanned, OB: TrySpan, OC: TrySpan, OD: TrySpan, OE: TrySpan> { f0: A, #[try_span] f1: OB, #[try_span] f2: OC, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S42<OA: TrySpan, B: Spanned, C: Spanned, D: Spanned, E: Spanned> (#[try_span] OA, B, C, D, E);
#[derive(Spanned)]
pub struct S43<OA: TrySpan, B: Spanned, C: Spanned, D: Spanned, OE: TrySpan> { #[try_span] f0: OA, f1: B, f2: C, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S44<OA: TrySpan, B: Spanned, C: Spanned, OD: TrySpan, E: Spanned> (#[try_span] OA, B, C, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S45<OA: TrySpan, B: Spanned, C: Spanned, OD: TrySpan, OE: TrySpan> { #[try_span] f0: OA, f1: B, f2: C, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S46<OA: TrySpan, B: Spanned, OC: TrySpan, D: Spanned, E: Spanned> (#[try_span] OA, B, #[try_span] OC, D, E);
#[derive(Spanned)]
pub struct S47<OA: TrySpan, B: Spanned, OC: TrySpan, D: Spanned, OE: TrySpan> { #[try_span] f0: OA, f1: B, #[try_span] f2: OC, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S48<OA: TrySpan, B: Spanned, OC: TrySpan, OD: TrySpan, E: Spanned> (#[try_span] OA, B, #[try_span] OC, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S49<OA: TrySpan, B: Spanned, OC: TrySpan, OD: TrySpan, OE: TrySpan> { #[try_span] f0: OA, f1: B, #[try_span] f2: OC, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S50<OA: TrySpan, OB: TrySpan, C: Spanned, D: Spanned, E: Spanned> (#[try_span] OA, #[try_span] OB, C, D, E);
#[derive(Spanned)]
pub struct S51<OA: TrySpan, OB: TrySpan, C: Spanned, D: Spanned, OE: TrySpan> { #[try_span] f0: OA, #[try_span] f1: OB, f2: C, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S52<OA: TrySpan, OB: TrySpan, C: Spanned, OD: TrySpan, E: Spanned> (#[try_span] OA, #[try_span] OB, C, #[try_span] OD, E);
#[derive(Spanned)]
pub struct S53<OA: TrySpan, OB: TrySpan, C: Spanned, OD: TrySpan, OE: TrySpan> { #[try_span] f0: OA, #[try_span] f1: OB, f2: C, #[try_span] f3: OD, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S54<OA: TrySpan, OB: TrySpan, OC: TrySpan, D: Spanned, E: Spanned> (#[try_span] OA, #[try_span] OB, #[try_span] OC, D, E);
#[derive(Spanned)]
pub struct S55<OA: TrySpan, OB: TrySpan, OC: TrySpan, D: Spanned, OE: TrySpan> { #[try_span] f0: OA, #[try_span] f1: OB, #[try_span] f2: OC, f3: D, #[try_span] f4: OE }
#[derive(Spanned)]
pub struct S56<OA: TrySpan, OB: TrySpan, OC: TrySpan, OD: TrySpan, E: Spanned> (#[try_span] OA, #[try_span] OB, #[try_span] OC, #[try_span] OD, E);
#[derive(Spanned)]
pub enum E0<A: Spanned> {
  V0(A),
}
#[derive(Spanned)]
pub enum E1<A: Spanned, B: Spanned, OA: TrySpan> {
  V0 { f0: A, f1: B },
  V1(#[try_span] OA, B),
}
#[derive(Spanned)]
pub enum E2<A: Spanned, B: Spanned, OA: TrySpan, OB: TrySpan, OC: TrySpan> {
  V0(A, #[try_span] OB),
  V1 { #[try_span] f0: OA, f1: B, #[try_span] f2: OC },
  V2(A),
}
#[derive(Spanned)]
pub enum E3<A: Spanned, B: Spanned, C: Spanned, OA: TrySpan, OB: TrySpan, OC: TrySpan> {
  V0 { #[try_span] f0: OA, #[try_span] f1: OB, f2: C },
  V1(A, #[try_span] OB, #[try_span] OC),
  V2 { f0: A, f1: B, f2: C },
  V3(#[try_span] OA, B, C),
}
#[derive(Spanned)]
pub enum E4<A: Spanned, B: Spanned, C: Spanned, D: Spanned, OA: TrySpan, OB: TrySpan, OC: TrySpan, OD: TrySpan> {
  V0(A, B, #[try_span] OC, #[try_span] OD),
  V1 { #[try_span] f0: OA, #[try_span] f1: OB, f2: C, f3: D },
  V2(A, #[try_span] OB, C, #[try_span] OD),
  V3 { #[try_span] f0: OA, f1: B, #[try_span] f2: OC, f3: D },
  V4(A),
}

#[derive(Spanned)]
pub struct Tok<K>(Token<K>, Token<K>);
#[derive(Spanned)]
pub struct Wrapped<A: Spanned, B: Spanned>(#[try_span] Option<A>, Box<B>, #[try_span] Vec<A>);
#[derive(Spanned)]
pub struct Lists<A: Spanned, B: Spanned, S: Spanned> {
  #[try_span]
  head: SepSeq<A, S>,
  mid: NonEmptySeq<B>,
  #[try_span]
  tail: OptSepSeq<A, S>,
}
#[derive(Spanned)]
pub struct Nested<A: Spanned, B: Spanned>(#[try_span] Option<Option<A>>, (B, u8, A), #[try_span] Option<Vec<B>>);
#[derive(Spanned)]
pub enum Rec<A: Spanned, B: Spanned> {
  Leaf(A),
  Node(Box<Rec<A, B>>, B, Box<Rec<A, B>>),
  Opt {
    #[try_span]
    l: Option<Box<Rec<A, B>>>,
    b: B,
    #[try_span]
    r: Option<Box<Rec<A, B>>>,
  },
}
#[derive(Spanned)]
pub struct Life<'a, A: Spanned + 'a, const N: usize>
where
  A: Clone,
{
  first: Keep<'a, A, N>,
  #[try_span]
  last: Option<A>,
}
pub struct Keep<'a, A, const N: usize>(&'a A);
#[derive(Spanned)]
pub struct Raw<A: Spanned, B: Spanned, OA: TrySpan> {
  #[try_span]
  r#type: OA,
  r#fn: A,
  _fn: B,
  r#in: B,
  #[try_span]
  span: OA,
}
#[derive(Spanned)]
pub enum RawE<A: Spanned, B: Spanned, OA: TrySpan> {
  r#match { r#ref: B, _ref: A },
  r#Struct {
    #[try_span]
    first: OA,
    last: B,
  },
  Self_(#[try_span] OA, A, #[try_span] OA),
}
impl<'a, A: Spanned, const N: usize> Spanned for Keep<'a, A, N> {
  fn span(&self) -> laps::span::Span {
    self.0.span()
  }
}

