#![allow(unused)]
pub use vstub::io::*;
