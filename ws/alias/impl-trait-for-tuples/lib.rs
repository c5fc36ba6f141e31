#![allow(unused)]
pub use vmacros::impl_for_tuples;
