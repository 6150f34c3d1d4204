//! Token kinds and token ASTs.
#![allow(unused)]
pub mod asts;
pub mod kinds;
