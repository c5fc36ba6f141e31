#![allow(unused)]
pub use vstub::log::*;
