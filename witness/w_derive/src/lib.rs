//! Declarations of every shape.
#![allow(unused)]
use laps::prelude::*;
pub mod parsers;
pub mod spanned;
