#![allow(unused)]
pub use vstub::xrplsdk::tys::*;
