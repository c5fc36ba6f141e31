#![allow(unused)]
pub use vstub::core_::*;
