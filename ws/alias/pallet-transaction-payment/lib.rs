#![allow(unused)]
pub use vstub::txpay::*;
