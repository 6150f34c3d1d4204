//! C08: counts and severities.
use laps::span::{Error, FileType, Location, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};

/// (errors grew by e, warnings grew by w), seen through another span of the same input
fn grew(s: &Span, e0: usize, w0: usize, e: usize, w: usize) -> (bool, bool) {
  (s.error_num() - e0 == e, s.warning_num() - w0 == w)
}

pub fn ob_log_error(s: Span) -> (bool, bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  let e = log_error!(t, "x");
  let g = grew(&s, e0, w0, 1, 0);
  (g.0, g.1, !e.is_fatal())
}

pub fn ob_log_fatal_error(s: Span) -> (bool, bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  let e = log_fatal_error!(t, "x");
  let g = grew(&s, e0, w0, 1, 0);
  (g.0, g.1, e.is_fatal())
}

pub fn ob_log_raw_error(s: Span) -> (bool, bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  let e = log_raw_error!(t, "x");
  let g = grew(&s, e0, w0, 1, 0);
  (g.0, g.1, !e.is_fatal())
}

pub fn ob_log_raw_fatal_error(s: Span) -> (bool, bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  let e = log_raw_fatal_error!(t, "x");
  let g = grew(&s, e0, w0, 1, 0);
  (g.0, g.1, e.is_fatal())
}

pub fn ob_log_warning(s: Span) -> (bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  log_warning!(t, "x");
  grew(&s, e0, w0, 0, 1)
}

pub fn ob_log_raw_warning(s: Span) -> (bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  log_raw_warning!(t, "x");
  grew(&s, e0, w0, 0, 1)
}

pub fn ob_log_summary(s: Span) -> (bool, bool) {
  let (t, e0, w0) = (s.clone(), s.error_num(), s.warning_num());
  t.log_summary();
  grew(&s, e0, w0, 0, 0)
}

/// nothing but the log methods counts, and derived spans share the counters
pub fn ob_span_operations(s: Span, o: Span, l: Location, c: char) -> (bool, bool) {
  let (e0, w0) = (s.error_num(), s.warning_num());
  let mut t = s.clone();
  t.update_loc(l);
  t.update(&c);
  t.update_end(&o);
  let t = t.into_updated(&c).into_end_updated(&o);
  let _ = (t.start(), t.end(), t.is_in_same_line_as(&s), t == s);
  let _ = t.file_type();
  grew(&s, e0, w0, 0, 0)
}

pub fn ob_shared_after_operations(s: Span, o: Span, l: Location, c: char) -> (bool, bool) {
  let (e0, w0) = (s.error_num(), s.warning_num());
  let mut t = s.clone();
  t.update_loc(l);
  t.update(&c);
  t.update_end(&o);
  let t = t.into_updated(&c).into_end_updated(&o);
  let _ = log_raw_error!(t, "x");
  log_raw_warning!(t, "x");
  grew(&s, e0, w0, 1, 1)
}

/// counters of another input are not touched
pub fn ob_other_input(s: Span, o: Span) -> (bool, bool) {
  let (e0, w0) = (o.error_num(), o.warning_num());
  let _ = log_raw_error!(s, "x");
  log_raw_warning!(s, "x");
  grew(&o, e0, w0, 0, 0)
}

pub fn ob_new_starts_at_zero() -> (bool, bool) {
  let s = Span::new(FileType::Buffer);
  (s.error_num() == 0, s.warning_num() == 0)
}
