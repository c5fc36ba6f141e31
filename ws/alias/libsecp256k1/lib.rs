#![allow(unused)]
pub use vstub::secp::*;
