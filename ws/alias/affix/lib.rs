#![allow(unused)]
pub use vmacros::paste;
