//! C08: the severity test, with the error representation without the `logger` feature.
use laps::span::Error;

pub fn ob_is_fatal(e: Error) -> (bool,) {
  let fatal = match &e {
    Error::Fatal(_) => true,
    Error::Normal(_) => false,
  };
  (e.is_fatal() == fatal,)
}
