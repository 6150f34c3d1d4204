//! C19: token kinds.  What each variant displays as is written down in lapscheck/checks/c19.py.
use laps::token::token_kind;

/// The documented example.
#[token_kind]
#[derive(Debug)]
pub enum Plain {
  /// String literal.
  Str(String),
  /// Integer literal.
  Int(i32),
  /// End-of-file.
  Eof,
}

pub struct Num<T>(T);

impl<T: Clone> Clone for Num<T> {
  fn clone(&self) -> Self {
    Num(self.0.clone())
  }
}
impl<T: PartialEq> PartialEq for Num<T> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<T> std::fmt::Display for Num<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("num")
  }
}

#[token_kind]
pub enum Shapes {
  Bare,
  HTTPServer,
  IfThenElse(u8),
  Lower_case9,
  /// A pair.
  Pair(u16, u16),
  /// A record
  Rec { a: u8 },
  Named { v: u64, w: bool },
  Nothing(),
  Void {},
  /// Wrapped. Number.
  Wrapped(Num<i8>),
  /// Optional.
  Unit(char),
}

#[token_kind]
pub enum Docs {
  /// First line,
  /// second line.
  Lines(u8),
  ///
  Empty(u16),
  /// ends with dots...
  Dots(u32),
  ///     Indented text.   
  Indent(u64),
  #[doc = "By Attribute."]
  Attr(i8),
  /// Quotes "and" `ticks` \n \\ 100%.
  Escapes(i16),
  /// Straße ÄÖ Übung.
  Umlaut(i32),
  /// .
  Period,
  #[allow(dead_code)]
  /// Between attributes.
  #[cfg(all())]
  Between(i64),
  /// Paragraph one.
  ///
  /// Paragraph two.
  Paragraphs(bool),
  /// Same as above
  #[doc = " and more. "]
  Mixed,
}

#[token_kind]
#[derive(Copy, Eq, Hash, PartialOrd, Ord)]
pub(crate) enum One {
  /// The only one.
  Only(u8),
}

#[token_kind]
pub enum Discriminants {
  A,
  B = 7,
  C = 3,
  D,
}

mod private {
  use super::token_kind;
  #[token_kind]
  enum Hidden {
    Text(&'static str),
    Slice(Vec<(u8, char)>, u8),
    /// Byte string.
    Bytes(std::sync::Arc<str>),
  }
}
