//! Obligation functions: each returns `true` on every input if laps keeps the property.
#![allow(unused)]

pub mod span;
pub mod logs;
pub mod severity;
pub mod holders;
