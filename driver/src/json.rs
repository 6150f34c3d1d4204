//! A minimal JSON writer.
use std::fmt::Write;

pub enum J {
  Null,
  Bool(bool),
  Num(i128),
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(&'static str, J)>),
  Map(Vec<(String, J)>),
}

impl J {
  pub fn s<T: ToString>(t: T) -> J {
    J::Str(t.to_string())
  }
  pub fn write(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::Num(n) => write!(o, "{n}").unwrap(),
      J::Str(s) => esc(s, o),
      J::Arr(v) => {
        o.push('[');
        for (i, e) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          e.write(o);
        }
        o.push(']');
      }
      J::Obj(v) => {
        o.push('{');
        for (i, (k, e)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          esc(k, o);
          o.push(':');
          e.write(o);
        }
        o.push('}');
      }
      J::Map(v) => {
        o.push('{');
        for (i, (k, e)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          esc(k, o);
          o.push(':');
          e.write(o);
        }
        o.push('}');
      }
    }
  }
}

fn esc(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
      c => o.push(c),
    }
  }
  o.push('"');
}
