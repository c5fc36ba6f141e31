#![allow(unused)]
pub use vstub::ethabi::*;
