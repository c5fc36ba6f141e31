//! Small models used by `primitives`.
use crate::cdc::*;
pub mod hashers {
	pub struct Out(pub [u8; 32]);
	impl From<Out> for [u8; 20] {
		fn from(o: Out) -> Self {
			let mut r = [0; 20];
			r.copy_from_slice(&o.0[12..]);
			r
		}
	}
	impl From<Out> for [u8; 32] {
		fn from(o: Out) -> Self {
			o.0
		}
	}
	impl AsRef<[u8]> for Out {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	pub trait Digest {
		type Out;
		fn new() -> Self;
		fn update(&mut self, d: impl AsRef<[u8]>);
		fn finalize(self) -> Self::Out;
		fn digest(d: impl AsRef<[u8]>) -> Self::Out;
	}
	pub struct Sha512(Vec<u8>);
	impl Digest for Sha512 {
		type Out = [u8; 64];
		fn new() -> Self {
			Sha512(vec![])
		}
		fn update(&mut self, d: impl AsRef<[u8]>) {
			self.0.extend_from_slice(d.as_ref())
		}
		fn finalize(self) -> [u8; 64] {
			crate::io::hashing::sha512(&self.0)
		}
		fn digest(d: impl AsRef<[u8]>) -> [u8; 64] {
			crate::io::hashing::sha512(d.as_ref())
		}
	}
	pub struct Sha256(Vec<u8>);
	pub struct Ripemd160(Vec<u8>);
	impl Digest for Sha256 {
		type Out = Out;
		fn new() -> Self {
			Sha256(vec![])
		}
		fn update(&mut self, d: impl AsRef<[u8]>) {
			self.0.extend_from_slice(d.as_ref())
		}
		fn finalize(self) -> Out {
			Self::digest(self.0)
		}
		fn digest(d: impl AsRef<[u8]>) -> Out {
			Out(crate::io::hashing::sha2_256(d.as_ref()))
		}
	}
	impl Digest for Ripemd160 {
		type Out = Out;
		fn new() -> Self {
			Ripemd160(vec![])
		}
		fn update(&mut self, d: impl AsRef<[u8]>) {
			self.0.extend_from_slice(d.as_ref())
		}
		fn finalize(self) -> Out {
			Self::digest(self.0)
		}
		fn digest(d: impl AsRef<[u8]>) -> Out {
			let mut r = [0; 32];
			r[12..].copy_from_slice(&crate::io::hashing::ripemd160(d.as_ref()));
			Out(r)
		}
	}
}
pub mod secp {
	pub struct Message([u8; 32]);
	impl Message {
		pub fn parse(b: &[u8; 32]) -> Message {
			Message(*b)
		}
	}
	pub struct Signature(Vec<u8>);
	impl Signature {
		/// DER: a sequence of 8 bytes or more.
		pub fn parse_der(b: &[u8]) -> Result<Signature, Error> {
			if b.len() < 8 || b[0] != 0x30 {
				return Err(Error);
			}
			Ok(Signature(b.to_vec()))
		}
	}
	pub fn verify(m: &Message, s: &Signature, k: &PublicKey) -> bool {
		crate::xrplsdk::holds(&k.0, &m.0, &s.0)
	}
	pub enum PublicKeyFormat {
		Compressed,
		Full,
		Raw,
	}
	pub struct PublicKey([u8; 33]);
	#[derive(Debug)]
	pub struct Error;
	impl PublicKey {
		/// Parsing accepts any 33 bytes with a 02/03 tag (curve membership is not modelled).
		pub fn parse_slice(b: &[u8], _f: Option<PublicKeyFormat>) -> Result<PublicKey, Error> {
			let a: [u8; 33] = b.try_into().map_err(|_| Error)?;
			if a[0] != 2 && a[0] != 3 {
				return Err(Error);
			}
			Ok(PublicKey(a))
		}
		pub fn parse_compressed(b: &[u8; 33]) -> Result<PublicKey, Error> {
			Self::parse_slice(&b[..], None)
		}
		pub fn serialize_compressed(&self) -> [u8; 33] {
			self.0
		}
		/// Uncompressed form: x coordinate followed by an arbitrary (functional) y coordinate.
		pub fn serialize(&self) -> [u8; 65] {
			let mut r = [0u8; 65];
			r[0] = 4;
			r[1..33].copy_from_slice(&self.0[1..]);
			r[33..].copy_from_slice(&crate::io::hashing::sha2_256(&self.0));
			r
		}
	}
}
pub mod appcrypto {
	use super::*;
	pub use crate::core_::{ecdsa, ed25519, sr25519};
	pub use crate::core_::crypto::ByteArray;
	pub use crate::rt::{BoundToRuntimeAppPublic, RuntimeAppPublic};
	pub use crate::rt::KeyTypeId;
	#[macro_export]
	macro_rules! __with_pair { ($($t:tt)*) => {}; }
	#[macro_export]
	macro_rules! __app_crypto {
		(ecdsa, $k:expr) => {
			#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, ::codec::Encode, ::codec::Decode)]
			pub struct Public(pub ::sp_core::ecdsa::Public);
			#[derive(Clone, Debug, PartialEq, Eq, Hash, ::codec::Encode, ::codec::Decode)]
			pub struct Signature(pub ::sp_core::ecdsa::Signature);
			impl From<::sp_core::ecdsa::Public> for Public { fn from(x: ::sp_core::ecdsa::Public) -> Self { Public(x) } }
			impl From<Public> for ::sp_core::ecdsa::Public { fn from(x: Public) -> Self { x.0 } }
			impl From<::sp_core::ecdsa::Signature> for Signature { fn from(x: ::sp_core::ecdsa::Signature) -> Self { Signature(x) } }
			impl From<Signature> for ::sp_core::ecdsa::Signature { fn from(x: Signature) -> Self { x.0 } }
			impl AsRef<[u8]> for Public { fn as_ref(&self) -> &[u8] { &self.0 .0 } }
			impl AsRef<[u8]> for Signature { fn as_ref(&self) -> &[u8] { &self.0 .0 } }
			impl<'a> TryFrom<&'a [u8]> for Public { type Error = (); fn try_from(x: &'a [u8]) -> Result<Self, ()> { ::sp_core::ecdsa::Public::try_from(x).map(Public) } }
			impl<'a> TryFrom<&'a [u8]> for Signature { type Error = (); fn try_from(x: &'a [u8]) -> Result<Self, ()> { ::sp_core::ecdsa::Signature::try_from(x).map(Signature) } }
			impl ::sp_core::crypto::ByteArray for Public {
				const LEN: usize = 33;
				fn from_slice(s: &[u8]) -> Result<Self, ()> { Self::try_from(s) }
			}
			impl ::sp_runtime::RuntimeAppPublic for Public {
				const ID: ::sp_runtime::KeyTypeId = $k;
				type Signature = Signature;
				fn all() -> ::sp_std::vec::Vec<Self> { ::sp_io::local_keys().iter().map(|k| Public(::sp_core::ecdsa::Public(*k))).collect() }
				fn generate_pair(_: Option<::sp_std::vec::Vec<u8>>) -> Self { unimplemented!() }
				fn sign<M: AsRef<[u8]>>(&self, m: &M) -> Option<Signature> { ::sp_io::sign(m.as_ref(), &self.0 .0).map(|s| Signature(::sp_core::ecdsa::Signature(s))) }
				fn verify<M: AsRef<[u8]>>(&self, m: &M, s: &Signature) -> bool { ::sp_io::sig_verify(m.as_ref(), &self.0 .0, &s.0 .0) }
				fn to_raw_vec(&self) -> ::sp_std::vec::Vec<u8> { self.0 .0.to_vec() }
			}
		};
	}
	#[allow(unused)]
	fn _e(_: Error) {}
}
