#![allow(unused)]
pub use vstub::assets::*;
