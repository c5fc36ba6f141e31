#![allow(unused)]
pub use vstub::core_::sr25519::Public as AuthorityId;
