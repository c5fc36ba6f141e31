#![allow(unused)]
pub use vstub::balances::*;
