#![allow(unused)]
pub use vstub::hashers::{Digest, Sha256, Sha512};
