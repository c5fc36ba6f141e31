#![allow(unused)]
pub use vstub::system::*;
