//! Written by tools/mkwit.py from lapscheck/lexspecs.py.
#![allow(dead_code)]
use laps::prelude::*;
use std::str::FromStr;

pub struct Val(pub u64);

impl FromStr for Val {
  type Err = ();
  fn from_str(_: &str) -> Result<Self, ()> { Err(()) }
}

pub fn parse_a(_: &str) -> Option<Val> { None }
pub fn parse_b(_: &str) -> Option<Val> { None }
pub fn parse_bytes(_: &[u8]) -> Option<Val> { None }

#[derive(Tokenize)]
pub enum M0 {
  #[regex(r"(?:(?:[^a]|[b-d])(?:c|a)){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M1 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:(?:(?:b|[b-d])|(?:c|a))|(?:b|[^a]a))")]
  V1,
}

#[derive(Tokenize)]
pub enum M2 {
  #[regex(r"(?:(?:(?:c){2}){2,}|[ac]b(?:c|b))")]
  V0,
  #[regex(r"[c-f]")]
  V1,
}

#[derive(Tokenize)]
pub enum M3 {
  #[regex(r"(?:c){1,2}")]
  V0,
  #[regex(r"(?:(?:b){2}(?:a)*|a[^a](?:c)*)")]
  V1,
  #[regex(r"(?:b){2,}d(?:b)+")]
  V2,
}

#[derive(Tokenize)]
pub enum M4 {
  #[regex(r"(?:b|(?:(?:[a-c]|b)){1,2})")]
  V0,
}

#[derive(Tokenize)]
pub enum M5 {
  #[regex(r"(?:(?:db|(?:d|[ad]))|b)")]
  V0,
  #[regex(r"(?:(?:c)+|a)")]
  V1,
  #[regex(r".c")]
  V2,
  #[regex(r"(?:(?:[c-f]d|(?:c){2,})|(?:a){2}(?:[a-c]|.))")]
  V3,
}

#[derive(Tokenize)]
pub enum M6 {
  #[regex(r"(?:(?:[a-c])+(?:c|[ad]))+")]
  V0,
  #[regex(r"badd")]
  V1,
}

#[derive(Tokenize)]
pub enum M7 {
  #[regex(r"(?:.){2}")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"(?:(?:a|[^b-d])){2,}(?:(?:.)*|d)")]
  V2,
  #[regex(r"a")]
  V3,
}

#[derive(Tokenize)]
pub enum M8 {
  #[regex(r"[a-c]a[c-f]")]
  V0,
}

#[derive(Tokenize)]
pub enum M9 {
  #[regex(r"(?:.){2,}ac")]
  V0,
  #[regex(r"(?:a|b)(?:a[a-c]){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M10 {
  #[regex(r"(?:c){2}(?:bc|(?:c|[c-f]))")]
  V0,
  #[regex(r"(?:(?:cc)+){2}")]
  V1,
  #[regex(r"(?:c(?:c|[ac])){1,2}")]
  V2,
}

#[derive(Tokenize)]
pub enum M11 {
  #[regex(r"c")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"[^a]")]
  V2,
}

#[derive(Tokenize)]
pub enum M12 {
  #[regex(r".")]
  V0,
  #[regex(r"[ac]")]
  V1,
  #[regex(r"[ad]")]
  V2,
  #[regex(r"(?:(?:[b-d]|a)|(?:a)?)[a-c]")]
  V3,
}

#[derive(Tokenize)]
pub enum M13 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:a)+")]
  V1,
  #[regex(r"b")]
  V2,
  #[regex(r"d")]
  V3,
}

#[derive(Tokenize)]
pub enum M14 {
  #[regex(r"(?:.b){1,2}(?:.){1,2}b")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M15 {
  #[regex(r"(?:d){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M16 {
  #[regex(r"(?:a){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M17 {
  #[regex(r"(?:(?:(?:[c-f]|c)|(?:[^b-d]){2,})){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M18 {
  #[regex(r"[c-f]")]
  V0,
  #[regex(r"(?:(?:c){2}){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M19 {
  #[regex(r"b(?:(?:b){2,}){2}")]
  V0,
  #[regex(r"(?:a)+")]
  V1,
  #[regex(r"(?:(?:[^a]){2}|(?:da){2,})")]
  V2,
}

#[derive(Tokenize)]
pub enum M20 {
  #[regex(r"(?:b){2,}(?:b)?c")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"(?:.|a)")]
  V2,
}

#[derive(Tokenize)]
pub enum M21 {
  #[regex(r"c")]
  V0,
  #[regex(r"dd(?:d){2}")]
  V1,
  #[regex(r"(?:(?:[b-d])+[ac]|(?:c){2,}[^a][ad])")]
  V2,
}

#[derive(Tokenize)]
pub enum M22 {
  #[regex(r"(?:[ac]){2,}")]
  V0,
  #[regex(r"[b-d]")]
  V1,
}

#[derive(Tokenize)]
pub enum M23 {
  #[regex(r".")]
  V0,
  #[regex(r"(?:(?:bd){1,2}|[b-d])")]
  V1,
}

#[derive(Tokenize)]
pub enum M24 {
  #[regex(r"(?:(?:b|b)a|acd)")]
  V0,
  #[regex(r"[ad]")]
  V1,
  #[regex(r"c")]
  V2,
}

#[derive(Tokenize)]
pub enum M25 {
  #[regex(r"(?:c|d)")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"c")]
  V2,
}

#[derive(Tokenize)]
pub enum M26 {
  #[regex(r"(?:[c-f]c(?:[^a]){2}){2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M27 {
  #[regex(r"[a-c]a")]
  V0,
}

#[derive(Tokenize)]
pub enum M28 {
  #[regex(r"[^a]")]
  V0,
  #[regex(r"(?:c|ddd)")]
  V1,
  #[regex(r"(?:a){2,}")]
  V2,
}

#[derive(Tokenize)]
pub enum M29 {
  #[regex(r"(?:(?:[ad])?|a.)(?:ba|c[ac])")]
  V0,
}

#[derive(Tokenize)]
pub enum M30 {
  #[regex(r"[b-d]")]
  V0,
  #[regex(r"(?:(?:a[^a]|(?:[^a]){2})|cc)")]
  V1,
  #[regex(r"c")]
  V2,
}

#[derive(Tokenize)]
pub enum M31 {
  #[regex(r"c")]
  V0,
  #[regex(r"(?:da|[c-f]a)(?:[^a])*")]
  V1,
}

#[derive(Tokenize)]
pub enum M32 {
  #[regex(r"[^b-d]")]
  V0,
  #[regex(r"[ac]")]
  V1,
}

#[derive(Tokenize)]
pub enum M33 {
  #[regex(r"(?:(?:[ad]|a)[^a]d)+")]
  V0,
  #[regex(r"(?:c|[a-c])dd(?:b)?")]
  V1,
  #[regex(r"b")]
  V2,
}

#[derive(Tokenize)]
pub enum M34 {
  #[regex(r"(?:d|(?:a|(?:[^b-d]|[^a])))")]
  V0,
  #[regex(r"d")]
  V1,
  #[regex(r"(?:b)*(?:(?:[a-c]|b)|dd)")]
  V2,
  #[regex(r"(?:(?:d){2,}(?:[c-f]|b)|(?:(?:a|b)){2,})")]
  V3,
}

#[derive(Tokenize)]
pub enum M35 {
  #[regex(r"(?:[ab]){2,}(?:(?:d)?|(?:d)*)")]
  V0,
}

#[derive(Tokenize)]
pub enum M36 {
  #[regex(r"b.")]
  V0,
  #[regex(r"(?:(?:a)+)*(?:c){2,}(?:a|[b-d])")]
  V1,
  #[regex(r"(?:b(?:b|[b-d])){2,}")]
  V2,
}

#[derive(Tokenize)]
pub enum M37 {
  #[regex(r"(?:c){2}cc")]
  V0,
  #[regex(r"(?:[ac])+(?:[^a]){1,2}")]
  V1,
  #[regex(r"[^b-d]")]
  V2,
}

#[derive(Tokenize)]
pub enum M38 {
  #[regex(r"d(?:(?:d){2}|(?:b|[^b-d]))")]
  V0,
  #[regex(r"(?:(?:a|[^a])){1,2}c")]
  V1,
  #[regex(r"a")]
  V2,
}

#[derive(Tokenize)]
pub enum M39 {
  #[regex(r"(?:(?:[^a]b){2})+")]
  V0,
  #[regex(r"d")]
  V1,
  #[regex(r"a")]
  V2,
}

#[derive(Tokenize)]
pub enum M40 {
  #[regex(r"db[^b-d]")]
  V0,
}

#[derive(Tokenize)]
pub enum M41 {
  #[regex(r"(?:cb|(?:a|c))c")]
  V0,
}

#[derive(Tokenize)]
pub enum M42 {
  #[regex(r"c")]
  V0,
  #[regex(r"(?:(?:[ab]a|b)){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M43 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:[ad]){2,}")]
  V1,
}

#[derive(Tokenize)]
pub enum M44 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:[ac]|(?:d|a)(?:a){2})")]
  V1,
  #[regex(r"d")]
  V2,
}

#[derive(Tokenize)]
pub enum M45 {
  #[regex(r"(?:(?:b|b)(?:b|b)){2,}")]
  V0,
  #[regex(r"(?:(?:a|b))*b")]
  V1,
}

#[derive(Tokenize)]
pub enum M46 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:[^a]|[^b-d][c-f])(?:a.)*")]
  V1,
  #[regex(r"c")]
  V2,
}

#[derive(Tokenize)]
pub enum M47 {
  #[regex(r"[ad]")]
  V0,
  #[regex(r"(?:c){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M48 {
  #[regex(r"(?:(?:[ac])+(?:a|[ab])|(?:(?:[^a]){2}|(?:[ac]){2,}))")]
  V0,
  #[regex(r"d")]
  V1,
}

#[derive(Tokenize)]
pub enum M49 {
  #[regex(r"(?:c[a-c]d|(?:(?:c|d)|ca))")]
  V0,
  #[regex(r"[c-f]")]
  V1,
  #[regex(r"(?:b){1,2}(?:d|b)c")]
  V2,
}

#[derive(Tokenize)]
pub enum M50 {
  #[regex(r"(?:(?:a|[b-d]a)|(?:c|[c-f]a))")]
  V0,
}

#[derive(Tokenize)]
pub enum M51 {
  #[regex(r"[ab]")]
  V0,
  #[regex(r"(?:[a-c]){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M52 {
  #[regex(r"(?:(?:[c-f]|b)){2,}(?:(?:d){2,})+")]
  V0,
}

#[derive(Tokenize)]
pub enum M53 {
  #[regex(r"(?:d){2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M54 {
  #[regex(r"da(?:c|[ad])(?:d|[ad])")]
  V0,
}

#[derive(Tokenize)]
pub enum M55 {
  #[regex(r"(?:(?:[^b-d]b){1,2})+")]
  V0,
}

#[derive(Tokenize)]
pub enum M56 {
  #[regex(r"(?:(?:(?:[^b-d]|[ab])){1,2}){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum M57 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:c[ab])*[^a]c(?:a|[a-c])")]
  V1,
}

#[derive(Tokenize)]
pub enum M58 {
  #[regex(r"(?:(?:(?:[ad]|b)){1,2}|(?:.){1,2})")]
  V0,
}

#[derive(Tokenize)]
pub enum M59 {
  #[regex(r"(?:(?:[ac]|[a-c])(?:[ab]|a))+")]
  V0,
  #[regex(r"[ab]b")]
  V1,
  #[regex(r"(?:[^a]|b)")]
  V2,
  #[regex(r"(?:(?:a)+|.(?:d)+)")]
  V3,
}

#[derive(Tokenize)]
pub enum M60 {
  #[regex(r"(?:(?:b)?|(?:[ab])?)[ad]")]
  V0,
  #[regex(r"(?:(?:[b-d]d){1,2}){1,2}")]
  V1,
  #[regex(r"(?:a|a)")]
  V2,
}

#[derive(Tokenize)]
pub enum M61 {
  #[regex(r"(?:a|d)")]
  V0,
  #[regex(r"(?:b){2}")]
  V1,
  #[regex(r"[ac]")]
  V2,
  #[regex(r"b")]
  V3,
}

#[derive(Tokenize)]
pub enum M62 {
  #[regex(r"(?:dab){2}")]
  V0,
  #[regex(r"[a-c]")]
  V1,
}

#[derive(Tokenize)]
pub enum M63 {
  #[regex(r"(?:(?:aa|bd)|(?:(?:c|b))+)")]
  V0,
  #[regex(r"(?:(?:a[^b-d]){1,2}){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M64 {
  #[regex(r"(?:(?:c|c)(?:c|[b-d])|[b-d])")]
  V0,
  #[regex(r"(?:c|(?:(?:[^a]|c)|(?:a){2,}))")]
  V1,
  #[regex(r"[^b-d]")]
  V2,
  #[regex(r"c")]
  V3,
}

#[derive(Tokenize)]
pub enum M65 {
  #[regex(r"(?:b){2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M66 {
  #[regex(r"(?:(?:c)*|(?:[ab]){2})[ad]")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M67 {
  #[regex(r"c")]
  V0,
  #[regex(r"[ac]")]
  V1,
}

#[derive(Tokenize)]
pub enum M68 {
  #[regex(r"(?:(?:d|d))*(?:(?:[ad]){1,2}|[a-c])")]
  V0,
  #[regex(r"d")]
  V1,
}

#[derive(Tokenize)]
pub enum M69 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:(?:a|b)(?:c|a)|(?:(?:c)+)+)")]
  V1,
  #[regex(r"c")]
  V2,
}

#[derive(Tokenize)]
pub enum M70 {
  #[regex(r"(?:(?:[^a]|c))+da[ad]")]
  V0,
}

#[derive(Tokenize)]
pub enum M71 {
  #[regex(r"[^a]")]
  V0,
  #[regex(r"d(?:a)?")]
  V1,
  #[regex(r"d")]
  V2,
}

#[derive(Tokenize)]
pub enum M72 {
  #[regex(r"a(?:d)?(?:b){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum M73 {
  #[regex(r"(?:(?:(?:a|[ad])|(?:d){1,2}))+")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M74 {
  #[regex(r"(?:[b-d]){2,}")]
  V0,
  #[regex(r"(?:c|.)")]
  V1,
  #[regex(r"b")]
  V2,
}

#[derive(Tokenize)]
pub enum M75 {
  #[regex(r"(?:(?:b)*)*(?:(?:a){2}){2,}")]
  V0,
  #[regex(r"a(?:c){2,}")]
  V1,
}

#[derive(Tokenize)]
pub enum M76 {
  #[regex(r"(?:(?:(?:d){1,2}|(?:c){2,})|(?:d|b)ad)")]
  V0,
  #[regex(r"d")]
  V1,
}

#[derive(Tokenize)]
pub enum M77 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:c|b)")]
  V1,
  #[regex(r"(?:(?:.)*(?:[b-d]|b)|(?:c){2})")]
  V2,
}

#[derive(Tokenize)]
pub enum M78 {
  #[regex(r"(?:(?:a|[^b-d])){2}(?:[c-f]d)+")]
  V0,
}

#[derive(Tokenize)]
pub enum M79 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:c){2}ad")]
  V1,
}

#[derive(Tokenize)]
pub enum M80 {
  #[regex(r"a")]
  V0,
  #[regex(r"(?:d){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M81 {
  #[regex(r"(?:(?:[^b-d])*)*(?:a|[a-c])(?:c)+")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M82 {
  #[regex(r"a")]
  V0,
  #[regex(r"[c-f]a[a-c](?:.){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M83 {
  #[regex(r"(?:(?:(?:d|[b-d]))+){2,}")]
  V0,
  #[regex(r"(?:.|b)")]
  V1,
}

#[derive(Tokenize)]
pub enum M84 {
  #[regex(r"d")]
  V0,
  #[regex(r"[^b-d]")]
  V1,
  #[regex(r"(?:(?:[ab]){2,})+(?:(?:.)?)*")]
  V2,
}

#[derive(Tokenize)]
pub enum M85 {
  #[regex(r"cd")]
  V0,
  #[regex(r"(?:(?:(?:a){2,})+){2,}")]
  V1,
  #[regex(r"bb(?:[c-f]){2}")]
  V2,
  #[regex(r"(?:[b-d]){1,2}")]
  V3,
}

#[derive(Tokenize)]
pub enum M86 {
  #[regex(r"(?:(?:(?:[^a]|a)){2,}|(?:cd){2})")]
  V0,
  #[regex(r"(?:[b-d])*a")]
  V1,
}

#[derive(Tokenize)]
pub enum M87 {
  #[regex(r"(?:c)+(?:[^b-d]){1,2}(?:[^b-d])+(?:.|a)")]
  V0,
}

#[derive(Tokenize)]
pub enum M88 {
  #[regex(r"b")]
  V0,
  #[regex(r"[^b-d]")]
  V1,
}

#[derive(Tokenize)]
pub enum M89 {
  #[regex(r"c(?:(?:a){2}|(?:a|c))")]
  V0,
  #[regex(r"(?:(?:c|(?:c|d))|(?:d){2,}(?:d)*)")]
  V1,
  #[regex(r"(?:(?:[ac]){2,}|(?:c){1,2})d")]
  V2,
}

#[derive(Tokenize)]
pub enum M90 {
  #[regex(r"b(?:[c-f]){2}(?:[c-f]|d)")]
  V0,
  #[regex(r"(?:(?:b[^a]|c))+")]
  V1,
}

#[derive(Tokenize)]
pub enum M91 {
  #[regex(r"(?:(?:(?:d)+|[b-d])){2,}")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M92 {
  #[regex(r"a")]
  V0,
  #[regex(r"bc")]
  V1,
}

#[derive(Tokenize)]
pub enum M93 {
  #[regex(r"(?:(?:ad)+){2,}")]
  V0,
  #[regex(r"dd(?:[ad]|(?:c|.))")]
  V1,
  #[regex(r"(?:(?:a|[^a])|[b-d])(?:(?:b|c)|(?:b|d))")]
  V2,
}

#[derive(Tokenize)]
pub enum M94 {
  #[regex(r"(?:[a-c]b|d)(?:d|d)a")]
  V0,
}

#[derive(Tokenize)]
pub enum M95 {
  #[regex(r"(?:a){2,}")]
  V0,
  #[regex(r"[ac]")]
  V1,
  #[regex(r"[ac][^a]a(?:[^a]){2,}")]
  V2,
}

#[derive(Tokenize)]
pub enum M96 {
  #[regex(r"(?:(?:d[b-d])+){1,2}")]
  V0,
  #[regex(r"(?:(?:.|[^b-d])(?:[^b-d]|[b-d])|(?:(?:c|b)|[a-c]))")]
  V1,
}

#[derive(Tokenize)]
pub enum M97 {
  #[regex(r"(?:(?:[ab]c|(?:.|a))|(?:c)*(?:a|[^a]))")]
  V0,
}

#[derive(Tokenize)]
pub enum M98 {
  #[regex(r"a(?:[a-c]){1,2}[^a]")]
  V0,
}

#[derive(Tokenize)]
pub enum M99 {
  #[regex(r"(?:[ab][a-c].c){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum M100 {
  #[regex(r"(?:(?:c)*[c-f]b|[c-f](?:[ab]){2})")]
  V0,
  #[regex(r"(?:(?:(?:c|b)|(?:a){2})|(?:(?:b){2,}){2})")]
  V1,
}

#[derive(Tokenize)]
pub enum M101 {
  #[regex(r"(?:(?:(?:a|b)){2,})+")]
  V0,
  #[regex(r"(?:[ac]|(?:c|c))")]
  V1,
}

#[derive(Tokenize)]
pub enum M102 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:(?:[^b-d]){2,}){1,2}")]
  V1,
  #[regex(r"(?:[c-f]b|b)(?:(?:d)+|[^a]a)")]
  V2,
}

#[derive(Tokenize)]
pub enum M103 {
  #[regex(r"a")]
  V0,
  #[regex(r"c")]
  V1,
}

#[derive(Tokenize)]
pub enum M104 {
  #[regex(r"(?:(?:c|(?:[a-c]|b))|(?:(?:b|[ad])|c))")]
  V0,
  #[regex(r"(?:(?:ac|(?:b|[ab]))){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M105 {
  #[regex(r"c(?:(?:d)*|(?:[ab]){2})")]
  V0,
  #[regex(r"(?:[ad](?:[ab]|a)){2,}")]
  V1,
}

#[derive(Tokenize)]
pub enum M106 {
  #[regex(r"(?:(?:b[b-d]|ac)|(?:[c-f]|a)(?:[ac]|c))")]
  V0,
  #[regex(r"d")]
  V1,
  #[regex(r"[ac]c")]
  V2,
}

#[derive(Tokenize)]
pub enum M107 {
  #[regex(r"(?:(?:d[^a]){2,}){2}")]
  V0,
  #[regex(r"d")]
  V1,
  #[regex(r"b")]
  V2,
  #[regex(r"(?:b|a)")]
  V3,
}

#[derive(Tokenize)]
pub enum M108 {
  #[regex(r"(?:(?:b|(?:d|a))|(?:(?:b){1,2}|c[ab]))")]
  V0,
  #[regex(r"(?:(?:a|c)){1,2}c")]
  V1,
}

#[derive(Tokenize)]
pub enum M109 {
  #[regex(r"(?:(?:[^b-d]|b)(?:d|[c-f])|d)")]
  V0,
}

#[derive(Tokenize)]
pub enum M110 {
  #[regex(r"(?:[ad])+")]
  V0,
  #[regex(r"(?:[ab]|c)d(?:[^a]){2}(?:[ad]){2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M111 {
  #[regex(r"[ad]dd(?:[ac]a)*")]
  V0,
  #[regex(r"(?:a){2}")]
  V1,
  #[regex(r"a")]
  V2,
}

#[derive(Tokenize)]
pub enum M112 {
  #[regex(r"(?:b){1,2}")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"a")]
  V2,
}

#[derive(Tokenize)]
pub enum M113 {
  #[regex(r"[^b-d]")]
  V0,
  #[regex(r"bb")]
  V1,
}

#[derive(Tokenize)]
pub enum M114 {
  #[regex(r"[a-c][ab]c(?:(?:[ac])*|(?:[c-f]){2,})")]
  V0,
  #[regex(r"(?:c)+")]
  V1,
  #[regex(r"b")]
  V2,
}

#[derive(Tokenize)]
pub enum M115 {
  #[regex(r"[ad]")]
  V0,
  #[regex(r"[a-c]")]
  V1,
}

#[derive(Tokenize)]
pub enum M116 {
  #[regex(r"(?:(?:d|(?:a){2}))+")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"b")]
  V2,
  #[regex(r"c")]
  V3,
}

#[derive(Tokenize)]
pub enum M117 {
  #[regex(r"(?:(?:d|(?:b)+)){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum M118 {
  #[regex(r"(?:(?:(?:a|c))+){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum M119 {
  #[regex(r"(?:(?:(?:[b-d]){1,2}|a))+")]
  V0,
  #[regex(r"(?:(?:[a-c]c){1,2})+")]
  V1,
  #[regex(r"d")]
  V2,
  #[regex(r"(?:(?:[ab]|a)|(?:[^b-d]){1,2})c")]
  V3,
}

#[derive(Tokenize)]
pub enum M120 {
  #[regex(r"b")]
  V0,
  #[regex(r"(?:ccb){2}")]
  V1,
  #[regex(r"(?:(?:b|a)|b)")]
  V2,
  #[regex(r"[c-f]")]
  V3,
}

#[derive(Tokenize)]
pub enum M121 {
  #[regex(r"(?:b){2,}")]
  V0,
}

#[derive(Tokenize)]
pub enum M122 {
  #[regex(r"(?:(?:b|c)(?:b)*|(?:dd|c))")]
  V0,
}

#[derive(Tokenize)]
pub enum M123 {
  #[regex(r"b")]
  V0,
  #[regex(r"(?:c){2}(?:d){1,2}d")]
  V1,
  #[regex(r"(?:d|c)(?:a|[b-d])(?:a[ab]|(?:[c-f]){1,2})")]
  V2,
  #[regex(r"[ac]")]
  V3,
}

#[derive(Tokenize)]
pub enum M124 {
  #[regex(r"(?:a)+")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M125 {
  #[regex(r"(?:ad){1,2}b")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"(?:[^b-d]|c)(?:[ad]){2,}c(?:[^a]){1,2}")]
  V2,
}

#[derive(Tokenize)]
pub enum M126 {
  #[regex(r"[a-c](?:[c-f]|(?:d)+)")]
  V0,
}

#[derive(Tokenize)]
pub enum M127 {
  #[regex(r"(?:(?:a.|(?:d|a))|d)")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"(?:(?:ca|[^b-d])|c)")]
  V2,
}

#[derive(Tokenize)]
pub enum M128 {
  #[regex(r"(?:(?:(?:c|[a-c])){2}|a)")]
  V0,
}

#[derive(Tokenize)]
pub enum M129 {
  #[regex(r"(?:a|(?:da|[a-c]))")]
  V0,
  #[regex(r"c")]
  V1,
  #[regex(r"(?:(?:[ad])?|(?:b)*)[^b-d]a(?:[ab])?")]
  V2,
}

#[derive(Tokenize)]
pub enum M130 {
  #[regex(r"d")]
  V0,
  #[regex(r"(?:(?:[ac]|b[ad])){2,}")]
  V1,
}

#[derive(Tokenize)]
pub enum M131 {
  #[regex(r"(?:aa)+[^a]")]
  V0,
  #[regex(r"[b-d]")]
  V1,
}

#[derive(Tokenize)]
pub enum M132 {
  #[regex(r".(?:d|(?:c)+)")]
  V0,
  #[regex(r"c[ad](?:c|[c-f])(?:cb)+")]
  V1,
}

#[derive(Tokenize)]
pub enum M133 {
  #[regex(r"(?:c){2}(?:[a-c])+(?:bc|d)")]
  V0,
  #[regex(r"(?:(?:ca){2,}|ba)")]
  V1,
}

#[derive(Tokenize)]
pub enum M134 {
  #[regex(r"(?:[b-d]|(?:(?:[a-c]|d))+)")]
  V0,
  #[regex(r"d")]
  V1,
  #[regex(r"(?:[^a]){2,}(?:(?:a)*){1,2}")]
  V2,
  #[regex(r"b[b-d]ba[a-c]")]
  V3,
}

#[derive(Tokenize)]
pub enum M135 {
  #[regex(r"(?:(?:(?:b|a)|ab)|(?:[ab][^a]|(?:b|a)))")]
  V0,
}

#[derive(Tokenize)]
pub enum M136 {
  #[regex(r"[ab]")]
  V0,
  #[regex(r"[ad]")]
  V1,
  #[regex(r"d")]
  V2,
  #[regex(r"a")]
  V3,
}

#[derive(Tokenize)]
pub enum M137 {
  #[regex(r"(?:c|[a-c]d)")]
  V0,
  #[regex(r"a")]
  V1,
  #[regex(r"(?:c|(?:[c-f])*a)")]
  V2,
}

#[derive(Tokenize)]
pub enum M138 {
  #[regex(r"(?:[ad]|(?:[^b-d]|a[ad]))")]
  V0,
  #[regex(r"(?:[c-f](?:d|[a-c])|(?:b|.)d)")]
  V1,
}

#[derive(Tokenize)]
pub enum M139 {
  #[regex(r"c(?:b)*d")]
  V0,
  #[regex(r"[c-f]")]
  V1,
  #[regex(r"b")]
  V2,
  #[regex(r"(?:d|cdd)")]
  V3,
}

#[derive(Tokenize)]
pub enum M140 {
  #[regex(r"(?:(?:d)?c.|(?:da|[^b-d]))")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum M141 {
  #[regex(r"(?:a[a-c]){2,}ba")]
  V0,
}

#[derive(Tokenize)]
pub enum M142 {
  #[regex(r"(?:(?:d|a)|(?:[b-d]|d))(?:c|(?:c|d))")]
  V0,
  #[regex(r"(?:a|(?:(?:a){1,2}){2})")]
  V1,
}

#[derive(Tokenize)]
pub enum M143 {
  #[regex(r"c")]
  V0,
  #[regex(r"ac[a-c]a(?:dc|(?:a|c))")]
  V1,
  #[regex(r"(?:[^a]){2,}")]
  V2,
}

#[derive(Tokenize)]
pub enum M144 {
  #[regex(r"(?:(?:a){1,2})+")]
  V0,
  #[regex(r"(?:b){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum M145 {
  #[regex(r"[ad]")]
  V0,
  #[regex(r"(?:b|(?:(?:[b-d]|[^b-d])){2})")]
  V1,
}

#[derive(Tokenize)]
pub enum M146 {
  #[regex(r"(?:[^a]b(?:a|b)){2}")]
  V0,
  #[regex(r"c")]
  V1,
}

#[derive(Tokenize)]
pub enum M147 {
  #[regex(r"aa[c-f]b[b-d]ca")]
  V0,
}

#[derive(Tokenize)]
pub enum M148 {
  #[regex(r"(?:dbd)+")]
  V0,
  #[regex(r"[a-c]")]
  V1,
}

#[derive(Tokenize)]
pub enum M149 {
  #[regex(r"(?:b){2}(?:(?:d)+|(?:[ad]|[^b-d]))")]
  V0,
  #[regex(r"(?:(?:(?:[ac]){1,2}){2}|c)")]
  V1,
}

#[derive(Tokenize)]
pub enum N0 {
  #[regex(r"[gi](?:[cdeghj])*")]
  V0,
  #[regex(r"(?:(?:(?:[abdefhi]|[bcdefghj])){1,2})+")]
  V1,
  #[regex(r"(?:[cdeg][acdegj][ab][bi]){2}")]
  V2,
}

#[derive(Tokenize)]
pub enum N1 {
  #[regex(r"b")]
  V0,
  #[regex(r"[abdehi](?:(?:[cehi])?){2}")]
  V1,
  #[regex(r"(?:(?:[acdfgh]|c)[abdej][abcdfij]){2}")]
  V2,
}

#[derive(Tokenize)]
pub enum N2 {
  #[regex(r"[ad]")]
  V0,
  #[regex(r"(?:(?:[afh]|[abcefh]))+")]
  V1,
  #[regex(r"c")]
  V2,
  #[regex(r"[acghij]")]
  V3,
}

#[derive(Tokenize)]
pub enum N3 {
  #[regex(r"(?:d){2,}(?:a|[cefj])[bcdfhi][abcegi]")]
  V0,
  #[regex(r"(?:(?:[abdefgi]|d)|[cefg])")]
  V1,
}

#[derive(Tokenize)]
pub enum N4 {
  #[regex(r"c")]
  V0,
  #[regex(r"b")]
  V1,
}

#[derive(Tokenize)]
pub enum N5 {
  #[regex(r"[ad][cehj]")]
  V0,
  #[regex(r"[c-f][abcg]")]
  V1,
  #[regex(r"[abcefij]")]
  V2,
  #[regex(r"(?:(?:b){1,2})+")]
  V3,
}

#[derive(Tokenize)]
pub enum N6 {
  #[regex(r"(?:(?:a){2,}){2,}(?:(?:c|[abceghj])|(?:[degij]|[bdfhij]))")]
  V0,
}

#[derive(Tokenize)]
pub enum N7 {
  #[regex(r"(?:(?:[abdefgh]){2,})*[acdefi]")]
  V0,
}

#[derive(Tokenize)]
pub enum N8 {
  #[regex(r"(?:[ah]){2}")]
  V0,
}

#[derive(Tokenize)]
pub enum N9 {
  #[regex(r"(?:[abdfgij]){2}")]
  V0,
}

#[derive(Tokenize)]
pub enum N10 {
  #[regex(r"(?:(?:[abcfj]|[bcdfi])(?:b|[aefghj]))+")]
  V0,
}

#[derive(Tokenize)]
pub enum N11 {
  #[regex(r"(?:(?:[acdfj]){1,2})?[abdehj]")]
  V0,
  #[regex(r"[bdeh]")]
  V1,
}

#[derive(Tokenize)]
pub enum N12 {
  #[regex(r"(?:(?:(?:[acdegi]|[adij])|(?:[abd]|[bghj]))){2}")]
  V0,
  #[regex(r"[adegh]")]
  V1,
  #[regex(r"[abefij]c")]
  V2,
}

#[derive(Tokenize)]
pub enum N13 {
  #[regex(r"(?:(?:[abdefgh][acdei]|[bcdgj])){2,}")]
  V0,
  #[regex(r"[abdej]")]
  V1,
  #[regex(r"[a-c]")]
  V2,
}

#[derive(Tokenize)]
pub enum N14 {
  #[regex(r"[bij](?:[adefgh][adfi])*")]
  V0,
}

#[derive(Tokenize)]
pub enum N15 {
  #[regex(r"[dfi][ac]")]
  V0,
}

#[derive(Tokenize)]
pub enum N16 {
  #[regex(r"[fhj](?:(?:[bcfghij])*|(?:a){1,2})")]
  V0,
  #[regex(r"[abcdef]")]
  V1,
}

#[derive(Tokenize)]
pub enum N17 {
  #[regex(r"b(?:(?:[adgi])+){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum N18 {
  #[regex(r"[adfg]")]
  V0,
  #[regex(r"[cdefj][abghi][bcij]")]
  V1,
  #[regex(r"[acde]")]
  V2,
  #[regex(r"[ehj]")]
  V3,
}

#[derive(Tokenize)]
pub enum N19 {
  #[regex(r"(?:c){2}(?:[adefghi]|[cdefghij])[cdfgi]ab[abefij]")]
  V0,
}

#[derive(Tokenize)]
pub enum N20 {
  #[regex(r"[bdfghi]")]
  V0,
  #[regex(r"[cdg]")]
  V1,
}

#[derive(Tokenize)]
pub enum N21 {
  #[regex(r"[cefghj]")]
  V0,
  #[regex(r".")]
  V1,
  #[regex(r"(?:a[ghij]|[abcdj])")]
  V2,
  #[regex(r"(?:[abdefgj]|(?:(?:b){2,}|[acdefgij][ab]))")]
  V3,
}

#[derive(Tokenize)]
pub enum N22 {
  #[regex(r".(?:[abcefij]|[defj])b")]
  V0,
}

#[derive(Tokenize)]
pub enum N23 {
  #[regex(r"(?:[abcdfghj]){1,2}")]
  V0,
  #[regex(r"(?:(?:(?:[abefghi]|[abeghij])|(?:[bcde]|[eghj]))|(?:(?:[aeg]|[bcdfhi])){1,2})")]
  V1,
  #[regex(r"[bdhij]")]
  V2,
}

#[derive(Tokenize)]
pub enum N24 {
  #[regex(r"[ab](?:(?:[bci]|c)){2,}")]
  V0,
  #[regex(r"(?:(?:(?:c){2,}|[ab][fh])|(?:(?:[abcfhij]|[befi]))+)")]
  V1,
  #[regex(r"(?:[dgh][efhij]){1,2}c")]
  V2,
}

#[derive(Tokenize)]
pub enum N25 {
  #[regex(r"[bcdefhj]")]
  V0,
  #[regex(r"b")]
  V1,
  #[regex(r"d(?:(?:[abcdefhi]){1,2}|[befgh])")]
  V2,
}

#[derive(Tokenize)]
pub enum N26 {
  #[regex(r"(?:[bfhij]|(?:[cdfij])+)")]
  V0,
}

#[derive(Tokenize)]
pub enum N27 {
  #[regex(r"(?:(?:c){2}|[chij][dfgh])[abcdefi]")]
  V0,
  #[regex(r"(?:[acdfhj][beghi](?:[bcdefgj]|[afhij])){2,}")]
  V1,
}

#[derive(Tokenize)]
pub enum N28 {
  #[regex(r"[adeghj]")]
  V0,
  #[regex(r"(?:[ac]|(?:[abcehj])?)[bghij]")]
  V1,
  #[regex(r"(?:(?:[abcfghij]|dd)|(?:(?:[a]|[aj])|[abdehi][bdgh]))")]
  V2,
}

#[derive(Tokenize)]
pub enum N29 {
  #[regex(r"(?:(?:[bdefgj][abcefghj]){2}|(?:[bhi]|[degj]))")]
  V0,
  #[regex(r"[ehij]")]
  V1,
}

#[derive(Tokenize)]
pub enum N30 {
  #[regex(r"[dfghi]")]
  V0,
  #[regex(r"[acdefghj]")]
  V1,
}

#[derive(Tokenize)]
pub enum N31 {
  #[regex(r"[cfgij]")]
  V0,
  #[regex(r"(?:(?:[aefhj][abcdefghj]|c[^b-d])|(?:[abdei]|(?:[abcdefghi]|[cehij])))")]
  V1,
  #[regex(r"(?:[aehj]|[^b-d])")]
  V2,
}

#[derive(Tokenize)]
pub enum N32 {
  #[regex(r"(?:[abdefh](?:[ac]){2}|(?:[eghij][abfj]|d))")]
  V0,
}

#[derive(Tokenize)]
pub enum N33 {
  #[regex(r"(?:(?:[hj]){2,}(?:[abdj]|[cegi])|(?:(?:b|[abdefgij])|[bgh]))")]
  V0,
  #[regex(r"(?:(?:[cdgij]|b)){1,2}(?:d){2,}")]
  V1,
  #[regex(r"[abef]")]
  V2,
}

#[derive(Tokenize)]
pub enum N34 {
  #[regex(r"[acfghi]")]
  V0,
  #[regex(r"(?:[be]){2}[acghi][cdehij]")]
  V1,
}

#[derive(Tokenize)]
pub enum N35 {
  #[regex(r"[abcefhj]")]
  V0,
  #[regex(r"[abcefhi]")]
  V1,
  #[regex(r"(?:[abcdfhi]){1,2}")]
  V2,
  #[regex(r"[adefgj]")]
  V3,
}

#[derive(Tokenize)]
pub enum N36 {
  #[regex(r"[ghij](?:[cdehj]|[a-c])[ad]")]
  V0,
  #[regex(r"[adhij]")]
  V1,
}

#[derive(Tokenize)]
pub enum N37 {
  #[regex(r"(?:[ehi]|(?:b|[aeg]))")]
  V0,
  #[regex(r"[egi]")]
  V1,
  #[regex(r"[adefh]")]
  V2,
}

#[derive(Tokenize)]
pub enum N38 {
  #[regex(r"b")]
  V0,
  #[regex(r"(?:(?:[acgh])*[acfhi]){1,2}")]
  V1,
  #[regex(r"(?:[cfhi]|[abcehij])")]
  V2,
}

#[derive(Tokenize)]
pub enum N39 {
  #[regex(r"[abdgi]")]
  V0,
  #[regex(r"(?:(?:(?:[abdefj]|[acghj])){2}){1,2}")]
  V1,
}

#[derive(Tokenize)]
pub enum N40 {
  #[regex(r"[b-d]")]
  V0,
  #[regex(r"[acdefg][defh]")]
  V1,
}

#[derive(Tokenize)]
pub enum N41 {
  #[regex(r"[cgi]")]
  V0,
  #[regex(r"[abdfi]")]
  V1,
  #[regex(r"(?:(?:[abd]|[c-f])(?:[abcdeghij])+)+")]
  V2,
}

#[derive(Tokenize)]
pub enum N42 {
  #[regex(r"(?:(?:[a-c]){1,2}|(?:[afghi]){2,})")]
  V0,
  #[regex(r"[abcdij](?:[cehi][bfg])*")]
  V1,
  #[regex(r"[abcdgij]")]
  V2,
}

#[derive(Tokenize)]
pub enum N43 {
  #[regex(r"(?:d)+[bdgij]")]
  V0,
}

#[derive(Tokenize)]
pub enum N44 {
  #[regex(r"[aefg]")]
  V0,
  #[regex(r"(?:a){2,}")]
  V1,
  #[regex(r"[fghj]")]
  V2,
}

#[derive(Tokenize)]
pub enum N45 {
  #[regex(r"[abch]")]
  V0,
  #[regex(r"[dij]")]
  V1,
}

#[derive(Tokenize)]
pub enum N46 {
  #[regex(r"[acefgij]")]
  V0,
  #[regex(r"(?:d(?:d){1,2})+")]
  V1,
  #[regex(r"[abceh]")]
  V2,
  #[regex(r"(?:[adhi]|(?:[bdef]|[ej])a)")]
  V3,
}

#[derive(Tokenize)]
pub enum N47 {
  #[regex(r"[bfghi]")]
  V0,
  #[regex(r"[bdh]")]
  V1,
}

#[derive(Tokenize)]
pub enum N48 {
  #[regex(r"[acgh]")]
  V0,
  #[regex(r"(?:(?:[abdefghi])*|(?:[bcdij]){2})[abefh]")]
  V1,
  #[regex(r"(?:(?:b){1,2})+")]
  V2,
  #[regex(r"(?:[bcdeij]){2}")]
  V3,
}

#[derive(Tokenize)]
pub enum N49 {
  #[regex(r"(?:[abfhij]|[bdfij])")]
  V0,
  #[regex(r"[bdei]")]
  V1,
}

#[derive(Tokenize)]
pub enum N50 {
  #[regex(r"(?:(?:(?:[abdfi])+){2,}|c)")]
  V0,
}

#[derive(Tokenize)]
pub enum N51 {
  #[regex(r"[aehij](?:b|[cdgj])(?:[behj]){2}")]
  V0,
  #[regex(r"[^b-d]d[bdfh]")]
  V1,
}

#[derive(Tokenize)]
pub enum N52 {
  #[regex(r"(?:[bghij]){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum N53 {
  #[regex(r"(?:d){2}[cdefi][adfj]c[aehi]")]
  V0,
}

#[derive(Tokenize)]
pub enum N54 {
  #[regex(r"[ab](?:[^a]|[aefhij])(?:(?:[acdfg]|[cdefg]))+")]
  V0,
}

#[derive(Tokenize)]
pub enum N55 {
  #[regex(r"(?:[cefgij](?:[cdfghi]){2,}){1,2}")]
  V0,
}

#[derive(Tokenize)]
pub enum N56 {
  #[regex(r"(?:[bcegi]){2}[abefghij][ab][bcfhi]")]
  V0,
  #[regex(r"(?:(?:(?:d|[abdj])|[abceij])|(?:[b-d]|(?:[ej]){2,}))")]
  V1,
}

#[derive(Tokenize)]
pub enum N57 {
  #[regex(r"(?:[cgij])+")]
  V0,
  #[regex(r"[cdfgh]")]
  V1,
  #[regex(r"(?:(?:(?:d)+){2}|(?:[ace].){2})")]
  V2,
}

#[derive(Tokenize)]
pub enum N58 {
  #[regex(r"[abcehj]")]
  V0,
  #[regex(r"(?:[dfgj])+")]
  V1,
  #[regex(r"[afgh]")]
  V2,
}

#[derive(Tokenize)]
pub enum N59 {
  #[regex(r"(?:[defgh]){2}")]
  V0,
}
