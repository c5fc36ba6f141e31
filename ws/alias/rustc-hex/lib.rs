#![allow(unused)]
pub use vstub::ethtypes::hex::*;
