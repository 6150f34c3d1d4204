//! laps without the `logger` feature.
#![allow(unused)]

#[path = "../../w_base/src/logs.rs"]
pub mod logs;
pub mod severity;
#[path = "../../w_base/src/span.rs"]
pub mod span;
