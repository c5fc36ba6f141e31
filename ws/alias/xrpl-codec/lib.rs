#![allow(unused)]
pub use vstub::xrplcodec::*;
