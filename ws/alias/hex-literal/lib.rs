#![allow(unused)]
pub use vstub::hex;
