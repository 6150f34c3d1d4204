//! C08: the severity test, with the error representation of the `logger` feature.
use laps::span::Error;

pub fn ob_is_fatal(e: Error) -> (bool,) {
  let fatal = match e {
    Error::Fatal => true,
    Error::Normal => false,
  };
  (e.is_fatal() == fatal,)
}
