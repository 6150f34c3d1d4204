//! C32: what the wrappers hold comes out of them again.
use laps::ast::*;
use laps::input::InputStream;
use laps::lexer::{Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Result, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::fs::File;
use std::io::{self, Cursor, Read, Stdin};
use std::path::Path;

macro_rules! each {
  ($r:ident, $m:ident, $o:ident, $t:ident <$($g:ident),+>) => {
    pub fn $r<$($g),+, F: FnMut(&T)>(s: &$t<$($g),+>, mut f: F) {
      for x in s {
        f(x)
      }
    }
    pub fn $m<$($g),+, F: FnMut(&mut T)>(s: &mut $t<$($g),+>, mut f: F) {
      for x in s {
        f(x)
      }
    }
    pub fn $o<$($g),+, F: FnMut(T)>(s: $t<$($g),+>, mut f: F) {
      for x in s {
        f(x)
      }
    }
  };
}
each!(ref_non_empty_seq, mut_non_empty_seq, own_non_empty_seq, NonEmptySeq<T>);
each!(ref_sep_seq, mut_sep_seq, own_sep_seq, SepSeq<T, S>);
each!(ref_non_empty_sep_seq, mut_non_empty_sep_seq, own_non_empty_sep_seq, NonEmptySepSeq<T, S>);
each!(ref_opt_sep_seq, mut_opt_sep_seq, own_opt_sep_seq, OptSepSeq<T, S>);
each!(ref_non_empty_opt_sep_seq, mut_non_empty_opt_sep_seq, own_non_empty_opt_sep_seq, NonEmptyOptSepSeq<T, S>);

// ---- lexers: made by `Tokenize::lexer` from an input

pub fn lexer_into<I, K: Tokenize>(i: I) -> I {
  K::lexer(i).into_input()
}

pub fn lexer_ref<I, K: Tokenize, F: FnMut(&I)>(i: I, mut f: F) {
  f(K::lexer(i).input())
}

pub fn lexer_mut<I, K: Tokenize, F: FnMut(&mut I)>(i: I, mut f: F) -> I {
  let mut l = K::lexer(i);
  f(l.input_mut());
  l.into_input()
}

/// a token drawn through the lexer, and the input afterwards
pub fn lexer_next<I: InputStream<CharType = C>, K: Tokenize<CharType = C>, C>(i: I) -> (Result<Token<K>>, I) {
  let mut l: Lexer<I, K> = K::lexer(i);
  let t = l.next_token();
  (t, l.into_input())
}

// ---- token buffers

pub fn buffer_into<TN: Tokenizer>(t: TN) -> TN {
  TokenBuffer::<TN, TN::Token>::new(t).into_inner()
}

pub fn buffer_from<TN: Tokenizer>(t: TN) -> TN {
  TokenBuffer::<TN, TN::Token>::from(t).into_inner()
}

pub fn buffer_ref<TN: Tokenizer, F: FnMut(&TN)>(t: TN, mut f: F) {
  f(TokenBuffer::<TN, TN::Token>::new(t).inner())
}

pub fn buffer_mut<TN: Tokenizer, F: FnMut(&mut TN)>(t: TN, mut f: F) -> TN {
  let mut b = TokenBuffer::<TN, TN::Token>::new(t);
  f(b.inner_mut());
  b.into_inner()
}

/// with a token put back in between
pub fn buffer_used<TN: Tokenizer>(t: TN, x: TN::Token) -> TN {
  let mut b = TokenBuffer::<TN, TN::Token>::new(t);
  b.unread(x);
  b.into_inner()
}

// ---- readers: (span a new reader is at, span of a new input of that name, what it reads from)

macro_rules! readers {
  ($r:ident, $new:ident, $stdin:ident, $string:ident, $str:ident, $bytes:ident, $path:ident) => {
    pub fn $new<T: Read>(t: T, f: FileType, g: FileType) -> (Span, Span, T) {
      let r: $r<T> = $r::new(t, f);
      (r.span().clone(), Span::new(g), r.into_inner())
    }
    pub fn $stdin(t: Stdin) -> (Span, Span, Stdin) {
      let r: $r<Stdin> = $r::from(t);
      (r.span().clone(), Span::new(FileType::Stdin), r.into_inner())
    }
    pub fn $string(t: String) -> (Span, Span, Cursor<String>) {
      let r: $r<Cursor<String>> = $r::from(t);
      (r.span().clone(), Span::new(FileType::Buffer), r.into_inner())
    }
    pub fn $str(t: &str) -> (Span, Span, Cursor<&str>) {
      let r: $r<Cursor<&str>> = $r::from(t);
      (r.span().clone(), Span::new(FileType::Buffer), r.into_inner())
    }
    pub fn $bytes(t: &[u8]) -> (Span, Span, &[u8]) {
      let r: $r<&[u8]> = $r::from(t);
      (r.span().clone(), Span::new(FileType::Buffer), r.into_inner())
    }
    pub fn $path(p: &Path) -> io::Result<(Span, Span, File)> {
      $r::from_path(p).map(|r| (r.span().clone(), Span::new(FileType::File(Box::from(p))), r.into_inner()))
    }
  };
}
readers!(Reader, reader_new, reader_stdin, reader_string, reader_str, reader_bytes, reader_path);
readers!(ByteReader, byte_new, byte_stdin, byte_string, byte_str, byte_bytes, byte_path);
