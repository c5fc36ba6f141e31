//! Model of sp_core.
use crate::cdc::*;
pub use crate::bounded;
pub use crate::cdc::{Decode, Encode, MaxEncodedLen};
pub use crate::fixed::*;
pub use crate::traits::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
pub use vmacros::RuntimeDebug;
macro_rules! bytes_ty {
	($n:ident, $l:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		#[repr(transparent)]
		pub struct $n(pub [u8; $l]);
		impl Default for $n {
			fn default() -> Self {
				$n([0; $l])
			}
		}
		impl $n {
			pub const fn from_raw(x: [u8; $l]) -> Self {
				$n(x)
			}
			pub fn from_slice(s: &[u8]) -> Option<Self> {
				<[u8; $l]>::try_from(s).ok().map($n)
			}
			pub fn any() -> Self {
				$n(crate::sx::bytes())
			}
			pub fn to_raw_vec(&self) -> Vec<u8> {
				self.0.to_vec()
			}
			pub fn as_slice(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsRef<[u8; $l]> for $n {
			fn as_ref(&self) -> &[u8; $l] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl core::ops::Deref for $n {
			type Target = [u8];
			fn deref(&self) -> &[u8] {
				&self.0
			}
		}
		impl From<[u8; $l]> for $n {
			fn from(x: [u8; $l]) -> Self {
				$n(x)
			}
		}
		impl From<$n> for [u8; $l] {
			fn from(x: $n) -> Self {
				x.0
			}
		}
		impl<'a> TryFrom<&'a [u8]> for $n {
			type Error = ();
			fn try_from(x: &'a [u8]) -> Result<Self, ()> {
				<[u8; $l]>::try_from(x).map($n).map_err(|_| ())
			}
		}
		impl Encode for $n {
			fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
				out.write(&self.0)
			}
			fn sclone(&self) -> Self {
				*self
			}
			fn seq(&self, o: &Self) -> bool {
				self == o
			}
		}
		impl Decode for $n {
			fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
				let mut r = [0u8; $l];
				inp.read(&mut r)?;
				Ok($n(r))
			}
		}
		impl core::fmt::Debug for $n {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl core::fmt::Display for $n {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl serde::Serialize for $n {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_bytes(&self.0)
			}
		}
		impl<'de> serde::Deserialize<'de> for $n {
			fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
				Err(serde::de::Error::custom("stub"))
			}
		}
	};
}
pub mod ecdsa {
	use super::*;
	bytes_ty!(Public, 33);
	bytes_ty!(Signature, 65);
	impl Signature {
		pub fn recover_prehashed(&self, m: &[u8; 32]) -> Option<Public> {
			crate::io::crypto::secp256k1_ecdsa_recover(&self.0, m).ok().map(|k| {
				let mut r = [0u8; 33];
				r[0] = 2 + (k[63] & 1);
				r[1..].copy_from_slice(&k[..32]);
				Public(r)
			})
		}
	}
	impl crate::rt::traits::IdentifyAccount for Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	pub struct Pair;
}
pub mod ed25519 {
	use super::*;
	bytes_ty!(Public, 32);
	bytes_ty!(Signature, 64);
	impl crate::rt::traits::IdentifyAccount for Public {
		type AccountId = Self;
		fn into_account(self) -> Self {
			self
		}
	}
	impl crate::rt::traits::Verify for Signature {
		type Signer = Public;
		fn verify<L: crate::rt::traits::Lazy<[u8]>>(&self, mut msg: L, signer: &Public) -> bool {
			crate::xrplsdk::holds(&signer.0, msg.get(), &self.0)
		}
	}
}
pub mod sr25519 {
	use super::*;
	bytes_ty!(Public, 32);
	bytes_ty!(Signature, 64);
}
pub mod crypto {
	pub use crate::rt::KeyTypeId;
	pub trait ByteArray: AsRef<[u8]> + Sized {
		const LEN: usize;
		fn from_slice(s: &[u8]) -> Result<Self, ()>;
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_ref().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
}
pub mod hexdisplay {
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<'a> AsBytesRef for &'a [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for crate::fixed::H256 {
		fn as_bytes_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl AsBytesRef for crate::fixed::H160 {
		fn as_bytes_ref(&self) -> &[u8] {
			&self.0
		}
	}
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsBytesRef + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_bytes_ref())
		}
	}
	impl<'a> core::fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			f.write_str("..")
		}
	}
}
pub mod offchain {
	pub use crate::rt::offchain::*;
}
pub type Bytes = Vec<u8>;
