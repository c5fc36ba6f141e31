#![allow(unused)]
pub use vstub::evm::*;
