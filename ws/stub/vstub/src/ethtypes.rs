//! ethereum_types beyond the fixed hashes, and the JSON / HTTP / hex crates the off-chain client names
//! (the client itself is replaced by the harness; these only have to compile).
pub use crate::fixed::*;
pub trait BigEndianHash {
	type Uint;
	fn from_uint(v: &Self::Uint) -> Self;
	fn into_uint(&self) -> Self::Uint;
}
impl BigEndianHash for H256 {
	type Uint = U256;
	fn from_uint(v: &U256) -> Self {
		let mut r = H256::zero();
		v.to_big_endian(&mut r.0);
		r
	}
	fn into_uint(&self) -> U256 {
		U256::from_big_endian(&self.0)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct U64(pub [u64; 1]);
impl U64 {
	pub fn zero() -> Self {
		U64([0])
	}
	pub fn is_zero(&self) -> bool {
		self.0[0] == 0
	}
	pub fn as_u64(&self) -> u64 {
		self.0[0]
	}
	pub fn low_u64(&self) -> u64 {
		self.0[0]
	}
}
impl From<u64> for U64 {
	fn from(x: u64) -> Self {
		U64([x])
	}
}
impl TryFrom<U64> for u64 {
	type Error = ();
	fn try_from(x: U64) -> Result<u64, ()> {
		Ok(x.0[0])
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Bloom(pub [u8; 256]);
impl Default for Bloom {
	fn default() -> Self {
		Bloom([0; 256])
	}
}
macro_rules! no_serde { ($($t:ty),*) => {$(
	impl serde::Serialize for $t {
		fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
			s.serialize_unit()
		}
	}
	impl<'de> serde::Deserialize<'de> for $t {
		fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
			Err(serde::de::Error::custom("stub"))
		}
	}
)*}; }
no_serde!(U64, Bloom);
pub mod json {
	pub use crate::xrplsdk::value::{from_value, Value};
	#[derive(Debug)]
	pub struct Error;
	pub fn from_slice<'a, T: serde::Deserialize<'a>>(_b: &'a [u8]) -> Result<T, Error> {
		Err(Error)
	}
	pub fn to_string<T: serde::Serialize>(_t: &T) -> Result<String, Error> {
		Err(Error)
	}
}
pub mod hex {
	pub trait ToHex {
		fn to_hex<T: core::iter::FromIterator<char>>(&self) -> T;
	}
	impl ToHex for [u8] {
		fn to_hex<T: core::iter::FromIterator<char>>(&self) -> T {
			self.iter().flat_map(|b| [char::from_digit((b >> 4) as u32, 16).unwrap(), char::from_digit((b & 15) as u32, 16).unwrap()]).collect()
		}
	}
	impl ToHex for Vec<u8> {
		fn to_hex<T: core::iter::FromIterator<char>>(&self) -> T {
			self[..].to_hex()
		}
	}
	pub const fn nib(c: u8) -> u8 {
		match c {
			b'0'..=b'9' => c - b'0',
			b'a'..=b'f' => c - b'a' + 10,
			b'A'..=b'F' => c - b'A' + 10,
			_ => panic!("hex"),
		}
	}
	pub const fn lit<const N: usize>(s: &[u8]) -> [u8; N] {
		let mut r = [0u8; N];
		let mut i = 0;
		while i < N {
			r[i] = nib(s[2 * i]) << 4 | nib(s[2 * i + 1]);
			i += 1;
		}
		r
	}
	#[macro_export]
	macro_rules! hex {
		($s:expr) => {{
			const S: &[u8] = $s.as_bytes();
			const R: [u8; S.len() / 2] = $crate::ethtypes::hex::lit::<{ S.len() / 2 }>(S);
			R
		}};
	}
}
