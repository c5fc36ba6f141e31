//! `vstub`: model of the Substrate/FRAME environment trn-seed's pallets run in. The pallets themselves are
//! compiled unmodified from /repo.
#![allow(static_mut_refs, unused, clippy::all)]
extern crate self as codec;
extern crate self as frame_support_;
pub mod bounded;
pub mod cdc;
pub mod core_;
pub mod extra;
pub mod balances;
pub mod ethabi;
pub mod evm;
pub mod dough;
pub mod sext;
pub mod proxy;
pub mod ethtypes;
pub mod assets;
pub use extra::{appcrypto, hashers, secp};
pub mod fixed;
pub mod io;
pub mod rt;
pub mod staking;
pub mod xrplcodec;
pub mod xrplsdk;
pub mod storage;
pub mod support;
pub mod sx;
pub mod system;
pub mod traits;
pub mod txpay;
pub mod weights;
pub use cdc::{Decode, Encode, EncodeLike, Error, Input, Output};

#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	($y:expr) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {{
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_)"),
		}
	}};
	($x:expr, $y:expr $(,)?) => {{
		assert_eq!($x, Ok($y));
	}};
}
#[macro_export]
macro_rules! assert_noop { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! assert_err { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! runtime_print { ($($t:tt)*) => {{}}; }
#[macro_export]
macro_rules! parameter_types {
	($(#[$a:meta])* $v:vis const $n:ident: $t:ty = $e:expr; $($rest:tt)*) => {
		$v struct $n;
		impl $n { pub fn get() -> $t { $e } }
		impl<I: From<$t>> ::frame_support::traits::Get<I> for $n { fn get() -> I { I::from($e) } }
		$crate::parameter_types!($($rest)*);
	};
	($(#[$a:meta])* $v:vis storage $n:ident: $t:ty = $e:expr; $($rest:tt)*) => {
		$v struct $n;
		impl $n { pub fn get() -> $t { $e } }
		impl<I: From<$t>> ::frame_support::traits::Get<I> for $n { fn get() -> I { I::from($e) } }
		$crate::parameter_types!($($rest)*);
	};
	() => {};
}
pub mod log {
	pub use crate::{__nolog as debug, __nolog as error, __nolog as info, __nolog as log, __nolog as trace, __nolog as warn};
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Level {
		Error,
		Warn,
		Info,
		Debug,
		Trace,
	}
}
#[macro_export]
macro_rules! __nolog { ($($t:tt)*) => {{}}; }
pub mod spstd {
	pub use std::{
		any, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, sync, time, vec,
	};
	pub mod prelude {
		pub use std::borrow::ToOwned;
		pub use std::boxed::Box;
		pub use std::clone::Clone;
		pub use std::cmp::{Eq, PartialEq, Reverse};
		pub use std::iter::IntoIterator;
		pub use std::vec;
		pub use std::vec::Vec;
	}
	pub mod collections {
		pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
	}
	#[derive(Default)]
	pub struct Writer(Vec<u8>);
	impl std::fmt::Write for Writer {
		fn write_str(&mut self, s: &str) -> std::fmt::Result {
			self.0.extend(s.as_bytes());
			Ok(())
		}
	}
	impl Writer {
		pub fn inner(&self) -> &Vec<u8> {
			&self.0
		}
		pub fn into_inner(self) -> Vec<u8> {
			self.0
		}
	}
	#[macro_export]
	macro_rules! if_std { ($($t:tt)*) => {}; }
	#[macro_export]
	macro_rules! map {
		($( $n:expr => $v:expr ),* $(,)?) => {{ let mut m = std::collections::BTreeMap::new(); $( m.insert($n, $v); )* m }};
	}
}
