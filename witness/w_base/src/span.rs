//! C07: locations and spans.
use laps::span::{FileType, Location, LocationUpdate, Span};

fn at(l: Location, line: u32, col: u32) -> bool {
  l.line == line && l.col == col
}

fn same(a: Location, b: Location) -> bool {
  a.line == b.line && a.col == b.col
}

/// (line, col) after one more symbol
fn after(l: Location, newline: bool) -> (u32, u32) {
  if newline {
    (l.line + 1, 0)
  } else {
    (l.line, l.col + 1)
  }
}

pub fn ob_new() -> (bool, bool) {
  let s = Span::new(FileType::Buffer);
  (at(s.start(), 1, 0), at(s.end(), 1, 0))
}

pub fn ob_location_update_char(l: Location, c: char) -> (bool,) {
  let mut m = l;
  c.update(&mut m);
  let (line, col) = after(l, c == '\n');
  (at(m, line, col),)
}

pub fn ob_location_update_u8(l: Location, c: u8) -> (bool,) {
  let mut m = l;
  c.update(&mut m);
  let (line, col) = after(l, c == b'\n');
  (at(m, line, col),)
}

pub fn ob_update_char(s: Span, c: char) -> (bool, bool, Span) {
  let mut t = s.clone();
  t.update(&c);
  let (line, col) = after(s.start(), c == '\n');
  (at(t.start(), line, col), at(t.end(), line, col), t)
}

pub fn ob_update_u8(s: Span, c: u8) -> (bool, bool, Span) {
  let mut t = s.clone();
  t.update(&c);
  let (line, col) = after(s.start(), c == b'\n');
  (at(t.start(), line, col), at(t.end(), line, col), t)
}

pub fn ob_into_updated_char(s: Span, c: char) -> (bool, bool, Span) {
  let t = s.clone().into_updated(&c);
  let (line, col) = after(s.start(), c == '\n');
  (at(t.start(), line, col), at(t.end(), line, col), t)
}

pub fn ob_into_updated_u8(s: Span, c: u8) -> (bool, bool, Span) {
  let t = s.clone().into_updated(&c);
  let (line, col) = after(s.start(), c == b'\n');
  (at(t.start(), line, col), at(t.end(), line, col), t)
}

pub fn ob_update_loc(s: Span, l: Location) -> (bool, bool, Span) {
  let mut t = s.clone();
  t.update_loc(l);
  (same(t.start(), l), same(t.end(), l), t)
}

pub fn ob_update_end(s: Span, o: Span) -> (bool, bool, Span) {
  let mut t = s.clone();
  t.update_end(&o);
  (same(t.start(), s.start()), same(t.end(), o.end()), t)
}

pub fn ob_update_end_owned(s: Span, o: Span) -> (bool, bool, Span) {
  let mut t = s.clone();
  t.update_end(o.clone());
  (same(t.start(), s.start()), same(t.end(), o.end()), t)
}

pub fn ob_into_end_updated(s: Span, o: Span) -> (bool, bool, Span) {
  let t = s.clone().into_end_updated(&o);
  (same(t.start(), s.start()), same(t.end(), o.end()), t)
}

pub fn ob_into_end_updated_owned(s: Span, o: Span) -> (bool, bool, Span) {
  let t = s.clone().into_end_updated(o.clone());
  (same(t.start(), s.start()), same(t.end(), o.end()), t)
}

pub fn ob_same_line(s: Span, o: Span) -> (bool,) {
  (s.is_in_same_line_as(&o) == (s.end().line == o.start().line),)
}

pub fn ob_clone(s: Span) -> (bool, bool, Span) {
  let t = s.clone();
  (same(t.start(), s.start()), same(t.end(), s.end()), t)
}

/// spans of the same input are equal exactly if both locations are
pub fn ob_eq_same_input(s: Span, a: Location, b: Location, x: Location, y: Location) -> (bool,) {
  let mut p = s.clone();
  p.update_loc(b);
  let mut e1 = s.clone();
  e1.update_loc(a);
  e1.update_end(&p);
  p.update_loc(y);
  let mut e2 = s.clone();
  e2.update_loc(x);
  e2.update_end(&p);
  ((e1 == e2) == (same(a, x) && same(b, y)),)
}

pub fn ob_eq_other_input(s: Span, o: Span, l: Location) -> (bool,) {
  let (mut a, mut b) = (s.clone(), o.clone());
  a.update_loc(l);
  b.update_loc(l);
  (!(a == b),)
}
