//! Written by tools/mkwit.py from lapscheck/lexspecs.py.
#![allow(dead_code)]
use laps::prelude::*;
use std::str::FromStr;

pub struct Val(pub u64);

impl FromStr for Val {
  type Err = ();
  fn from_str(_: &str) -> Result<Self, ()> { Err(()) }
}

pub fn parse_a(_: &str) -> Option<Val> { None }
pub fn parse_b(_: &str) -> Option<Val> { None }
pub fn parse_bytes(_: &[u8]) -> Option<Val> { None }

#[derive(Tokenize)]
pub enum Basic {
  #[skip(r"\s+")]
  Space,
  #[regex(r"if|else|while")]
  Keyword(Val),
  #[regex(r"[_a-zA-Z][_a-zA-Z0-9]*")]
  Ident(Val),
  #[regex(r"[0-9]+", parse_a)]
  Num(Val),
  #[regex(r"==|=|\+=|<<|<")]
  Op(Val),
  #[regex(r".")]
  Other(Val),
  #[eof]
  Eof,
}

#[derive(Tokenize)]
pub enum NoEof {
  #[regex(r"ab+")]
  A,
  #[regex(r"a(bc)?")]
  B(),
  C,
}

#[derive(Tokenize)]
pub enum TupleEof {
  #[eof]
  End(),
  #[skip(r"[ 
]+|//[^
]*")]
  S,
  #[regex(r"/|[0-9]")]
  D(Val),
  #[regex(r"x+", parse_b)]
  Fn(Val),
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum Bytes {
  #[skip(r"(?-u)[ 	]+")]
  Space,
  #[regex(r"(?-u)[a-z]+", parse_bytes)]
  Word(Val),
  #[regex(r"(?-u)[0-9][0-9]")]
  Pair(),
  #[regex(r"(?-u)[0-9]")]
  Half,
  #[eof]
  Eof,
}

#[derive(Tokenize)]
pub enum Quoted {
  #[regex(r#""[a-z]*""#)]
  Q(Val),
  #[skip(r"( |--[^;]*;)+")]
  S,
  #[regex(r"-?[0-9]+", parse_a)]
  N(Val),
  #[eof]
  Eof,
  #[regex(r"->>")]
  Arrow,
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum QuotedBytes {
  #[eof]
  Eof,
  #[regex(r#"(?-u)"[a-z]*""#, parse_bytes)]
  Q(Val),
  #[skip(r"aba")]
  S(),
  #[regex(r"abc")]
  T,
}

#[derive(Tokenize)]
pub enum SkipOnly {
  #[skip(r"ab*c|d")]
  S,
}

#[derive(Tokenize)]
pub enum Gaps {
  Before,
  /// A Vowel {} here...
  #[regex(r"[aeiou]+")]
  Vowel(Val),
  Middle(),
  /// Blank.
  #[skip(r" +")]
  Blank,
  ///   First line, 
  /// 
  /// third Line.
  #[regex(r"x+y?", parse_a)]
  HTTPWord(Val),
  #[eof]
  Eof,
  Late,
  /// .
  #[regex(r"[0-9]")]
  Digit(Val),
  #[regex(r"xz|a0")]
  Last(),
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum BytesLit {
  #[regex(r"é|ée")]
  A,
  #[regex(r"(?-u)[\x00-\x7f]x")]
  B,
  #[skip(r",")]
  S,
}

#[derive(Tokenize)]
pub enum StarAlt {
  #[regex(r"a*b|c")]
  V0,
  #[regex(r"(a|b)*c*d")]
  V1,
}

#[derive(Tokenize)]
pub enum AltStar {
  #[regex(r"(?:a*|b)c")]
  V0,
  #[regex(r"x(?:b|a*)y")]
  V1,
}

#[derive(Tokenize)]
pub enum Nested {
  #[regex(r"(?:(?:a*b)*c)*d")]
  V0,
  #[regex(r"(?:a|b*)+e")]
  V1,
}

#[derive(Tokenize)]
pub enum ConcatStar {
  #[regex(r"a*b*c*d")]
  V0,
  #[regex(r"(?:ab)*(?:ba)*e")]
  V1,
}

#[derive(Tokenize)]
pub enum StarOrd {
  #[regex(r"(?:b|a*)c")]
  V0,
  #[regex(r"(?:a*|b)d")]
  V1,
}

#[derive(Tokenize)]
pub enum OneOf {
  #[regex(r"(?:a*b)*x")]
  V0,
  #[regex(r"(?:ab*)*y")]
  V1,
}

#[derive(Tokenize)]
pub enum Optional {
  #[regex(r"a?b?c?d")]
  V0,
  #[regex(r"(?:ab)?(?:cd)?e")]
  V1,
}

#[derive(Tokenize)]
pub enum Counted {
  #[regex(r"a{3}")]
  V0,
  #[regex(r"b{2,4}")]
  V1,
  #[regex(r"(?:cd){1,3}e")]
  V2,
  #[regex(r"f{2,}")]
  V3,
  #[regex(r"g{0,2}h")]
  V4,
}

#[derive(Tokenize)]
pub enum PlusNest {
  #[regex(r"(?:a+b)+")]
  V0,
  #[regex(r"(?:c?d)+")]
  V1,
}

#[derive(Tokenize)]
pub enum Prec {
  #[regex(r"if|do")]
  V0,
  #[regex(r"[a-z]+")]
  V1,
  #[regex(r"[a-z0-9]+")]
  V2,
}

#[derive(Tokenize)]
pub enum PrecRev {
  #[regex(r"[a-z]")]
  V0,
  #[regex(r"a|b")]
  V1,
  #[regex(r"[ac]")]
  V2,
  #[regex(r"z+")]
  V3,
}

#[derive(Tokenize)]
pub enum SameTwice {
  #[regex(r"abc")]
  V0,
  #[regex(r"abc|abd")]
  V1,
  #[regex(r"ab[cde]")]
  V2,
}

#[derive(Tokenize)]
pub enum Dup {
  #[regex(r"a")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"bc")]
  V2,
  #[regex(r"b[c]")]
  V3,
}

#[derive(Tokenize)]
pub enum DupAlt {
  #[regex(r"if|b")]
  V0,
  #[regex(r"if")]
  V1,
  #[regex(r"c|b")]
  V2,
}

#[derive(Tokenize)]
pub enum DupNest {
  #[regex(r"xa|xb")]
  V0,
  #[regex(r"xb|xc")]
  V1,
  #[regex(r"x[abc]|y")]
  V2,
}

#[derive(Tokenize)]
pub enum SubAlt {
  #[regex(r"a|b")]
  V0,
  #[regex(r"a|c")]
  V1,
  #[regex(r"c|d")]
  V2,
  #[regex(r"d")]
  V3,
}

#[derive(Tokenize)]
pub enum ShareTail {
  #[regex(r"abz")]
  V0,
  #[regex(r"cbz")]
  V1,
  #[regex(r"dbz|ebz")]
  V2,
}

#[derive(Tokenize)]
pub enum ShareHead {
  #[regex(r"xab")]
  V0,
  #[regex(r"xac")]
  V1,
  #[regex(r"xa")]
  V2,
}

#[derive(Tokenize)]
pub enum AltTags {
  #[regex(r"ab|cd")]
  V0,
  #[regex(r"cd|ef")]
  V1,
  #[regex(r"ef|gh")]
  V2,
}

#[derive(Tokenize)]
pub enum Hidden {
  #[regex(r"[a-c]x")]
  V0,
  #[regex(r"bx")]
  V1,
  #[regex(r"[b-d]x")]
  V2,
}

#[derive(Tokenize)]
pub enum Ranges {
  #[regex(r"[a-m]")]
  V0,
  #[regex(r"[h-z]")]
  V1,
  #[regex(r"[c-e]1")]
  V2,
  #[regex(r"[d-p]2")]
  V3,
}

#[derive(Tokenize)]
pub enum Multi {
  #[regex(r"[a-cx-z]0")]
  V0,
  #[regex(r"[bx]1")]
  V1,
  #[regex(r"[c-y]2")]
  V2,
  #[regex(r"[az]3")]
  V3,
}

#[derive(Tokenize)]
pub enum Negated {
  #[regex(r"[^a-f]")]
  V0,
  #[regex(r"[b-h]q")]
  V1,
  #[regex(r"[^x]r")]
  V2,
}

#[derive(Tokenize)]
pub enum Weave {
  #[regex(r"[az]0|m0|[cx]1|n1")]
  V0,
  #[regex(r"[by]2|[dw]2|k2")]
  V1,
}

#[derive(Tokenize)]
pub enum Holes {
  #[regex(r"[acegi]1")]
  V0,
  #[regex(r"[b-h]2")]
  V1,
  #[regex(r"[d-z]3")]
  V2,
  #[regex(r"[a-zA-Z]4")]
  V3,
}

#[derive(Tokenize)]
pub enum Touching {
  #[regex(r"[a-c]")]
  V0,
  #[regex(r"[d-f]+")]
  V1,
  #[regex(r"[b-e]x")]
  V2,
  #[regex(r"g")]
  V3,
}

#[derive(Tokenize)]
pub enum Edges {
  #[regex(r"[\x{0}-\x{5}]")]
  V0,
  #[regex(r"[\x{d7f0}-\x{e010}]a")]
  V1,
  #[regex(r"[^\x{d7ff}]b")]
  V2,
  #[regex(r"[\x{10fff0}-\x{10ffff}]")]
  V3,
}

#[derive(Tokenize)]
pub enum Surrogate {
  #[regex(r"\x{d7ff}")]
  V0,
  #[regex(r"\x{e000}+")]
  V1,
  #[regex(r"[\x{d7fe}-\x{e001}]x")]
  V2,
}

#[derive(Tokenize)]
pub enum Dots {
  #[regex(r".a")]
  V0,
  #[regex(r".b.")]
  V1,
  #[regex(r"\.c")]
  V2,
}

#[derive(Tokenize)]
pub enum Inside {
  #[regex(r"[a-z]1")]
  V0,
  #[regex(r"[f-h]2")]
  V1,
  #[regex(r"[g]3")]
  V2,
  #[regex(r"[g-k]4")]
  V3,
  #[regex(r"[a-g]5")]
  V4,
}

#[derive(Tokenize)]
pub enum Islands {
  #[regex(r"[adgj]x")]
  V0,
  #[regex(r"[a-j]y")]
  V1,
  #[regex(r"[dg]z")]
  V2,
  #[regex(r"[b-c]w")]
  V3,
}

#[derive(Tokenize)]
pub enum Merge1 {
  #[regex(r"ax|[bd]x")]
  V0,
}

#[derive(Tokenize)]
pub enum Merge2 {
  #[regex(r"[ac]x|[bd]x")]
  V0,
  #[regex(r"ey|[fh]y")]
  V1,
}

#[derive(Tokenize)]
pub enum Merge3 {
  #[regex(r"bx|[ac]x")]
  V0,
  #[regex(r"[bdf]y|[ceg]y|ay")]
  V1,
}

#[derive(Tokenize)]
pub enum Merge4 {
  #[regex(r"[ac]x|[df]x|[bh]x")]
  V0,
  #[regex(r"[a-c]y|[e-g]y|dy")]
  V1,
}

#[derive(Tokenize)]
pub enum Merge5 {
  #[regex(r"x[bd]|xa|x[ce]")]
  V0,
  #[regex(r"y[bd]*z|ya*z")]
  V1,
}

#[derive(Tokenize)]
pub enum Merge6 {
  #[regex(r"[bdf]|a")]
  V0,
  #[regex(r"[bdf]x|ax")]
  V1,
  #[regex(r"[bdf]y|a[bdf]")]
  V2,
}

#[derive(Tokenize)]
pub enum Late1 {
  #[regex(r"[ac]xx*|[bd]x+")]
  V0,
  #[regex(r"[ex]y*z|[fgw]yy*z|[fgw]z")]
  V1,
}

#[derive(Tokenize)]
pub enum Late2 {
  #[regex(r"[az]xx*|cx+|mx|mxx+")]
  V0,
  #[regex(r"[bq]1{2,3}|[dp]11|[dp]111|[kn](1|11)1")]
  V1,
}

#[derive(Tokenize)]
pub enum Late3 {
  #[regex(r"[a-cm-p]y*|[e-g](y+)?|[i-k](yy*)?|z(y*)?")]
  V0,
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum LateBytes {
  #[regex(r"(?-u)[ace](xy)*x|[gik]x(yx)*|[moqs](xy)*x(yx)*")]
  V0,
}

#[derive(Tokenize)]
pub enum Late4 {
  #[regex(r"[ace](xy)*x|[fhj]x(yx)*|[kmo](xy)*x(yx)*|[t-v]x")]
  V0,
}

#[derive(Tokenize)]
pub enum Number {
  #[regex(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([Ee][+-]?[0-9]+)?")]
  V0,
  #[regex(r"-")]
  V1,
  #[regex(r"0x[0-9a-f]+")]
  V2,
}

#[derive(Tokenize)]
pub enum Str {
  #[regex(r#""([^"\\]|\\["\\nrt])*""#)]
  V0,
  #[regex(r"'[^']'")]
  V1,
}

#[derive(Tokenize)]
pub enum Comment {
  #[regex(r"/\*([^*]|\*+[^*/])*\*+/")]
  V0,
  #[regex(r"/")]
  V1,
  #[regex(r"\*")]
  V2,
}

#[derive(Tokenize)]
pub enum Ops {
  #[regex(r"<|>|<=|>=|==|=|!=|!|<<|<<=|&&|\|\|")]
  V0,
}

#[derive(Tokenize)]
pub enum Single {
  #[regex(r"a")]
  V0,
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum ByteRanges {
  #[regex(r"(?-u)[a-m]")]
  V0,
  #[regex(r"(?-u)[h-z]+")]
  V1,
  #[regex(r"(?-u)[c-e]1")]
  V2,
  #[regex(r"~")]
  V3,
}

#[derive(Tokenize)]
#[char_type(u8)]
pub enum ByteEdges {
  #[regex(r"(?-u)\x00[\x00-\x03]")]
  V0,
  #[regex(r"(?-u)[\x7e\x7f]")]
  V1,
  #[regex(r"(?-u)[\x01-\x7f]z")]
  V2,
}

#[derive(Tokenize)]
pub enum Big255 {
  #[regex(r"a{254}")]
  V0,
}

#[derive(Tokenize)]
pub enum Big256 {
  #[regex(r"a{255}")]
  V0,
}

#[derive(Tokenize)]
pub enum Big257 {
  #[regex(r"a{256}")]
  V0,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum NestedPar {
  #[regex(r"(?:(?:a*b)*c)*d")]
  V0,
  #[regex(r"(?:a|b*)+e")]
  V1,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum NestedSer {
  #[regex(r"(?:(?:a*b)*c)*d")]
  V0,
  #[regex(r"(?:a|b*)+e")]
  V1,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum PrecRevPar {
  #[regex(r"[a-z]")]
  V0,
  #[regex(r"a|b")]
  V1,
  #[regex(r"[ac]")]
  V2,
  #[regex(r"z+")]
  V3,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum PrecRevSer {
  #[regex(r"[a-z]")]
  V0,
  #[regex(r"a|b")]
  V1,
  #[regex(r"[ac]")]
  V2,
  #[regex(r"z+")]
  V3,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum RangesPar {
  #[regex(r"[a-m]")]
  V0,
  #[regex(r"[h-z]")]
  V1,
  #[regex(r"[c-e]1")]
  V2,
  #[regex(r"[d-p]2")]
  V3,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum RangesSer {
  #[regex(r"[a-m]")]
  V0,
  #[regex(r"[h-z]")]
  V1,
  #[regex(r"[c-e]1")]
  V2,
  #[regex(r"[d-p]2")]
  V3,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum NumberPar {
  #[regex(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([Ee][+-]?[0-9]+)?")]
  V0,
  #[regex(r"-")]
  V1,
  #[regex(r"0x[0-9a-f]+")]
  V2,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum NumberSer {
  #[regex(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([Ee][+-]?[0-9]+)?")]
  V0,
  #[regex(r"-")]
  V1,
  #[regex(r"0x[0-9a-f]+")]
  V2,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum CommentPar {
  #[regex(r"/\*([^*]|\*+[^*/])*\*+/")]
  V0,
  #[regex(r"/")]
  V1,
  #[regex(r"\*")]
  V2,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum CommentSer {
  #[regex(r"/\*([^*]|\*+[^*/])*\*+/")]
  V0,
  #[regex(r"/")]
  V1,
  #[regex(r"\*")]
  V2,
}

#[derive(Tokenize)]
#[enable_par(true)]
pub enum Wide {
  #[regex(r"ak")]
  V0,
  #[regex(r"al")]
  V1,
  #[regex(r"am")]
  V2,
  #[regex(r"bk")]
  V3,
  #[regex(r"bl")]
  V4,
  #[regex(r"bm")]
  V5,
  #[regex(r"ck")]
  V6,
  #[regex(r"cl")]
  V7,
  #[regex(r"cm")]
  V8,
  #[regex(r"dk")]
  V9,
  #[regex(r"dl")]
  V10,
  #[regex(r"dm")]
  V11,
  #[regex(r"ek")]
  V12,
  #[regex(r"el")]
  V13,
  #[regex(r"em")]
  V14,
  #[regex(r"fk")]
  V15,
  #[regex(r"fl")]
  V16,
  #[regex(r"fm")]
  V17,
  #[regex(r"gk")]
  V18,
  #[regex(r"gl")]
  V19,
  #[regex(r"gm")]
  V20,
  #[regex(r"hk")]
  V21,
  #[regex(r"hl")]
  V22,
  #[regex(r"hm")]
  V23,
  #[regex(r"[a-z]+0")]
  V24,
}

#[derive(Tokenize)]
pub enum Broad {
  #[regex(r"[\x{4e02}\x{4e06}\x{4e0a}\x{4e0e}\x{4e12}\x{4e16}\x{4e1a}\x{4e1e}\x{4e22}\x{4e26}\x{4e2a}\x{4e2e}\x{4e32}\x{4e36}\x{4e3a}\x{4e3e}\x{4e42}\x{4e46}\x{4e4a}\x{4e4e}\x{4e52}\x{4e56}\x{4e5a}\x{4e5e}\x{4e62}\x{4e66}\x{4e6a}\x{4e6e}\x{4e72}\x{4e76}\x{4e7a}\x{4e7e}\x{4e82}\x{4e86}]")]
  V0,
  #[regex(r"[\x{4e04}\x{4e06}\x{4e0c}\x{4e0e}\x{4e14}\x{4e16}\x{4e1c}\x{4e1e}\x{4e24}\x{4e26}\x{4e2c}\x{4e2e}\x{4e34}\x{4e36}\x{4e3c}\x{4e3e}\x{4e44}\x{4e46}\x{4e4c}\x{4e4e}\x{4e54}\x{4e56}\x{4e5c}\x{4e5e}\x{4e64}\x{4e66}\x{4e6c}\x{4e6e}\x{4e74}\x{4e76}\x{4e7c}\x{4e7e}\x{4e84}\x{4e86}]")]
  V1,
  #[regex(r"[\x{4e08}\x{4e0a}\x{4e0c}\x{4e0e}\x{4e18}\x{4e1a}\x{4e1c}\x{4e1e}\x{4e28}\x{4e2a}\x{4e2c}\x{4e2e}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e48}\x{4e4a}\x{4e4c}\x{4e4e}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V2,
  #[regex(r"[\x{4e10}\x{4e12}\x{4e14}\x{4e16}\x{4e18}\x{4e1a}\x{4e1c}\x{4e1e}\x{4e30}\x{4e32}\x{4e34}\x{4e36}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e50}\x{4e52}\x{4e54}\x{4e56}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V3,
  #[regex(r"[\x{4e20}\x{4e22}\x{4e24}\x{4e26}\x{4e28}\x{4e2a}\x{4e2c}\x{4e2e}\x{4e30}\x{4e32}\x{4e34}\x{4e36}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e60}\x{4e62}\x{4e64}\x{4e66}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V4,
  #[regex(r"[\x{4e40}\x{4e42}\x{4e44}\x{4e46}\x{4e48}\x{4e4a}\x{4e4c}\x{4e4e}\x{4e50}\x{4e52}\x{4e54}\x{4e56}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e60}\x{4e62}\x{4e64}\x{4e66}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V5,
  #[regex(r"[\x{4e80}\x{4e82}\x{4e84}\x{4e86}]")]
  V6,
}

#[derive(Tokenize)]
#[enable_par(false)]
pub enum BroadSer {
  #[regex(r"[\x{4e02}\x{4e06}\x{4e0a}\x{4e0e}\x{4e12}\x{4e16}\x{4e1a}\x{4e1e}\x{4e22}\x{4e26}\x{4e2a}\x{4e2e}\x{4e32}\x{4e36}\x{4e3a}\x{4e3e}\x{4e42}\x{4e46}\x{4e4a}\x{4e4e}\x{4e52}\x{4e56}\x{4e5a}\x{4e5e}\x{4e62}\x{4e66}\x{4e6a}\x{4e6e}\x{4e72}\x{4e76}\x{4e7a}\x{4e7e}\x{4e82}\x{4e86}]")]
  V0,
  #[regex(r"[\x{4e04}\x{4e06}\x{4e0c}\x{4e0e}\x{4e14}\x{4e16}\x{4e1c}\x{4e1e}\x{4e24}\x{4e26}\x{4e2c}\x{4e2e}\x{4e34}\x{4e36}\x{4e3c}\x{4e3e}\x{4e44}\x{4e46}\x{4e4c}\x{4e4e}\x{4e54}\x{4e56}\x{4e5c}\x{4e5e}\x{4e64}\x{4e66}\x{4e6c}\x{4e6e}\x{4e74}\x{4e76}\x{4e7c}\x{4e7e}\x{4e84}\x{4e86}]")]
  V1,
  #[regex(r"[\x{4e08}\x{4e0a}\x{4e0c}\x{4e0e}\x{4e18}\x{4e1a}\x{4e1c}\x{4e1e}\x{4e28}\x{4e2a}\x{4e2c}\x{4e2e}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e48}\x{4e4a}\x{4e4c}\x{4e4e}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V2,
  #[regex(r"[\x{4e10}\x{4e12}\x{4e14}\x{4e16}\x{4e18}\x{4e1a}\x{4e1c}\x{4e1e}\x{4e30}\x{4e32}\x{4e34}\x{4e36}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e50}\x{4e52}\x{4e54}\x{4e56}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V3,
  #[regex(r"[\x{4e20}\x{4e22}\x{4e24}\x{4e26}\x{4e28}\x{4e2a}\x{4e2c}\x{4e2e}\x{4e30}\x{4e32}\x{4e34}\x{4e36}\x{4e38}\x{4e3a}\x{4e3c}\x{4e3e}\x{4e60}\x{4e62}\x{4e64}\x{4e66}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V4,
  #[regex(r"[\x{4e40}\x{4e42}\x{4e44}\x{4e46}\x{4e48}\x{4e4a}\x{4e4c}\x{4e4e}\x{4e50}\x{4e52}\x{4e54}\x{4e56}\x{4e58}\x{4e5a}\x{4e5c}\x{4e5e}\x{4e60}\x{4e62}\x{4e64}\x{4e66}\x{4e68}\x{4e6a}\x{4e6c}\x{4e6e}\x{4e70}\x{4e72}\x{4e74}\x{4e76}\x{4e78}\x{4e7a}\x{4e7c}\x{4e7e}]")]
  V5,
  #[regex(r"[\x{4e80}\x{4e82}\x{4e84}\x{4e86}]")]
  V6,
}

#[derive(Tokenize)]
pub enum R0 {
  #[regex(r"[ac]")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"(?:c){1,2}")]
  V2,
}

#[derive(Tokenize)]
pub enum R1 {
  #[regex(r"(?:a(?:a|a)){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum R2 {
  #[regex(r".")]
  V0,
  #[regex(r"(?:(?:(?:b){2}|(?:[b-d]|d))|(?:[ac]d)+)")]
  V1,
  #[regex(r"[^a]")]
  V2,
}

#[derive(Tokenize)]
pub enum R3 {
  #[regex(r".")]
  V0,
  #[regex(r"d(?:[b-d])?")]
  V1,
}

#[derive(Tokenize)]
pub enum R4 {
  #[regex(r"(?:c){1,2}")]
  V0,
  #[regex(r"a")]
  V1,
}

#[derive(Tokenize)]
pub enum R5 {
  #[regex(r"(?:[^b-d])*(?:b){2,}(?:c){2,}")]
  V0,
  #[regex(r"c")]
  V1,
  #[regex(r"(?:(?:[ad]|[^b-d][ad])){2,}")]
  V2,
}

#[derive(Tokenize)]
pub enum R6 {
  #[regex(r"(?:bd(?:[ab]|c)){2}")]
  V0,
  #[regex(r"(?:d)*(?:a|a)(?:c)+(?:[ab]){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum R7 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:(?:d)*(?:d|d)|b)")]
  V1,
  #[regex(r"[a-c]")]
  V2,
}

#[derive(Tokenize)]
pub enum R8 {
  #[regex(r"(?:(?:(?:[ad])+){1,2}){1,2}")]
  V0,
  #[regex(r"[ab]")]
  V1,
}

#[derive(Tokenize)]
pub enum R9 {
  #[regex(r"cb[ad](?:b)*(?:d|[a-c])")]
  V0,
  #[regex(r"(?:[^b-d]){1,2}")]
  V1,
  #[regex(r"d")]
  V2,
  #[regex(r"[ab]")]
  V3,
}

#[derive(Tokenize)]
pub enum R10 {
  #[regex(r"a")]
  V0,
  #[regex(r"bd[b-d](?:[^b-d]|(?:[c-f]){2,})")]
  V1,
}

#[derive(Tokenize)]
pub enum R11 {
  #[regex(r"c")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"(?:c|a)")]
  V2,
}

#[derive(Tokenize)]
pub enum R12 {
  #[regex(r"b")]
  V0,
  #[regex(r"c")]
  V1,
  #[regex(r"d")]
  V2,
}

#[derive(Tokenize)]
pub enum R13 {
  #[regex(r"(?:d[a-c])?(?:c|a)")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"(?:(?:a[ac]){2,}){2}")]
  V2,
}

#[derive(Tokenize)]
pub enum R14 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:(?:a){2,}){1,2}")]
  V1,
  #[regex(r"(?:da){2,}(?:d)?")]
  V2,
}

#[derive(Tokenize)]
pub enum R15 {
  #[regex(r"dddbb")]
  V0,
}

#[derive(Tokenize)]
pub enum R16 {
  #[regex(r"(?:(?:c|c)da)+")]
  V0,
  #[regex(r"d")]
  V1,
}

#[derive(Tokenize)]
pub enum R17 {
  #[regex(r"(?:[ac](?:c|c)|c)")]
  V0,
  #[regex(r"(?:(?:b|c)|(?:d|a)(?:c|c))")]
  V1,
  #[regex(r"a")]
  V2,
  #[regex(r".(?:[ad]|c)(?:d|[^b-d])")]
  V3,
}

#[derive(Tokenize)]
pub enum R18 {
  #[regex(r"(?:c)+(?:[ac]){2,}a")]
  V0,
  #[regex(r"c")]
  V1,
}

#[derive(Tokenize)]
pub enum R19 {
  #[regex(r"(?:[ab]c(?:c){2,}|(?:.){1,2}d[b-d])")]
  V0,
  #[regex(r"a")]
  V1,
}

#[derive(Tokenize)]
pub enum R20 {
  #[regex(r"(?:(?:c|[ac]b)){2}")]
  V0,
  #[regex(r"c")]
  V1,
}

#[derive(Tokenize)]
pub enum R21 {
  #[regex(r"(?:(?:c[^b-d]|b)|(?:bd)+)")]
  V0,
  #[regex(r"d(?:b){2}(?:b|(?:b|b))")]
  V1,
  #[regex(r"(?:a|[ac])")]
  V2,
  #[regex(r"(?:(?:a|[ad]))+")]
  V3,
}

#[derive(Tokenize)]
pub enum R22 {
  #[regex(r"(?:(?:c){2,}){2,}")]
  V0,
  #[regex(r"(?:(?:(?:b|a)|c)|c)")]
  V1,
}

#[derive(Tokenize)]
pub enum R23 {
  #[regex(r"b")]
  V0,
  #[regex(r"(?:(?:ad|dc)|(?:(?:d)+|(?:d|d)))")]
  V1,
  #[regex(r"a")]
  V2,
  #[regex(r"c(?:c|[ab])(?:c|a)b")]
  V3,
}

#[derive(Tokenize)]
pub enum R24 {
  #[regex(r"(?:(?:(?:d|b)){2})+")]
  V0,
}

#[derive(Tokenize)]
pub enum R25 {
  #[regex(r".(?:(?:c|[^a])|(?:d)*)")]
  V0,
}

#[derive(Tokenize)]
pub enum R26 {
  #[regex(r"(?:a|(?:[^b-d])?)[ac]")]
  V0,
  #[regex(r"a")]
  V1,
}

#[derive(Tokenize)]
pub enum R27 {
  #[regex(r"(?:[^b-d]c)?b")]
  V0,
  #[regex(r"[ac]")]
  V1,
  #[regex(r"[b-d]")]
  V2,
  #[regex(r"(?:(?:[b-d]|a)|(?:(?:[^b-d]){1,2}|c))")]
  V3,
}

#[derive(Tokenize)]
pub enum R28 {
  #[regex(r"(?:(?:b|c)d|[ab][b-d]c)")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"[b-d](?:(?:c|b)){2}")]
  V2,
  #[regex(r"(?:a)*c")]
  V3,
}

#[derive(Tokenize)]
pub enum R29 {
  #[regex(r"(?:a[^b-d]|(?:[c-f]|[^b-d]))(?:aa){1,2}")]
  V0,
  #[regex(r"d")]
  V1,
}

#[derive(Tokenize)]
pub enum C0 {
  #[regex(r"(?:(?:[aefj]|[abefhj])){2}(?:(?:[abegh]){2}|[bdefghij][bcdefghij])")]
  V0,
}

#[derive(Tokenize)]
pub enum C1 {
  #[regex(r"[abefgi](?:[degi])?")]
  V0,
  #[regex(r"[abcd]")]
  V1,
  #[regex(r"[abegij]")]
  V2,
  #[regex(r"[cfghj]")]
  V3,
}

#[derive(Tokenize)]
pub enum C2 {
  #[regex(r"(?:[efghi][abcdfj])+(?:[abcdgij]|b)(?:[fhi]){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum C3 {
  #[regex(r"(?:[bcfj]|(?:[bcehij]){2,})")]
  V0,
}

#[derive(Tokenize)]
pub enum C4 {
  #[regex(r"a[acdfgh]")]
  V0,
}

#[derive(Tokenize)]
pub enum C5 {
  #[regex(r"(?:[abcdg]){2}")]
  V0,
  #[regex(r"[cefgij]")]
  V1,
}

#[derive(Tokenize)]
pub enum C6 {
  #[regex(r"(?:[abcdfghj](?:[ac]){1,2}){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum C7 {
  #[regex(r"(?:[achi][abefgj](?:[defij])?|[acdefh])")]
  V0,
  #[regex(r"(?:b|(?:(?:[abhi]){2,}){2})")]
  V1,
}

#[derive(Tokenize)]
pub enum C8 {
  #[regex(r"(?:[bh][abdefgh][adeghij]){1,2}")]
  V0,
  #[regex(r"[acegi]")]
  V1,
  #[regex(r"[cdfgj]")]
  V2,
}

#[derive(Tokenize)]
pub enum C9 {
  #[regex(r"[bcdf][abcfj]")]
  V0,
}

#[derive(Tokenize)]
pub enum C10 {
  #[regex(r"[befij]")]
  V0,
  #[regex(r"[^b-d]")]
  V1,
}

#[derive(Tokenize)]
pub enum C11 {
  #[regex(r"(?:(?:[bcfhi])+|(?:[abcdei])+)(?:a){2}")]
  V0,
  #[regex(r"[bcefghi]")]
  V1,
}
