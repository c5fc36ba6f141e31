#![allow(unused)]
pub use vstub::rt::*; pub use vstub::rt::traits as __t; pub mod testing {}
