#![allow(unused)]
pub use vstub::support::*; pub use vstub::{assert_ok, assert_noop, assert_err, ensure, fail, parameter_types, runtime_print}; pub use vmacros::{pallet, transactional, require_transactional, storage_alias};
