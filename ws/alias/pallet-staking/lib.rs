#![allow(unused)]
pub use vstub::staking::*;
