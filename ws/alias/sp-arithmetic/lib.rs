#![allow(unused)]
pub use vstub::rt::*;
