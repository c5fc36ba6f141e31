#![allow(unused)]
pub use vstub::ethtypes::json::*;
