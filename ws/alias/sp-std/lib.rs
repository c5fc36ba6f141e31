#![allow(unused)]
pub use vstub::spstd::*; pub use vstub::{if_std, map}; pub extern crate alloc;
