#![allow(unused)]
pub use vstub::dough::*;
