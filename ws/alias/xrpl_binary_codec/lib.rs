#![allow(unused)]
pub use vstub::xrplsdk::{deserializer, serializer};
