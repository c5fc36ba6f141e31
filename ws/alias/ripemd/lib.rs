#![allow(unused)]
pub use vstub::hashers::{Digest, Ripemd160};
