#![allow(unused)]
pub use vstub::cdc::*; pub use vmacros::{Encode, Decode, MaxEncodedLen}; pub extern crate alloc;
