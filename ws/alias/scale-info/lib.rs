#![allow(unused)]
pub use vstub::cdc::TypeInfo; pub use vmacros::TypeInfo; pub mod prelude { pub use std::*; pub use std::vec; }
