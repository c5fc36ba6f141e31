#![allow(unused)]
pub use vstub::appcrypto::*; pub use vstub::{__app_crypto as app_crypto, __with_pair as with_pair}; pub use vstub::core_::crypto::*;
