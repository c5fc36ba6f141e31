#![allow(unused)]
pub use vstub::proxy::*;
