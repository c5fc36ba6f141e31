//! Model of the doughnut-rs crate: certificates with an ideal signature scheme.
use crate::cdc::*;
/// The layout the model gives a doughnut's bytes.
pub const LEN: usize = 81;
pub mod doughnut {
	#[derive(Clone, PartialEq, Debug)]
	pub struct DoughnutV0;
	#[derive(Clone, PartialEq, Debug)]
	pub struct DoughnutV1 {
		pub issuer: [u8; 33],
		pub holder: [u8; 33],
		pub fee_mode: u8,
		pub expiry: u32,
		pub not_before: u32,
		pub signed: bool,
		pub domain: u8,
		pub topping: Vec<u8>,
	}
	#[derive(Clone, PartialEq, Debug)]
	pub enum Doughnut {
		V0(DoughnutV0),
		V1(DoughnutV1),
	}
}
use doughnut::*;
#[derive(Debug)]
pub enum Invalid {
	Holder,
	Expired,
	Premature,
}
impl Encode for Doughnut {
	fn encode_to<O: Output + ?Sized>(&self, _o: &mut O) {}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for Doughnut {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let mut b = [0u8; LEN];
		i.read(&mut b)?;
		let w = |k: usize| u32::from_be_bytes([b[k], b[k + 1], b[k + 2], b[k + 3]]);
		match b[0] {
			0 => Ok(Doughnut::V0(DoughnutV0)),
			1 => Ok(Doughnut::V1(DoughnutV1 {
				issuer: b[1..34].try_into().unwrap(),
				holder: b[34..67].try_into().unwrap(),
				fee_mode: b[67],
				expiry: w(68),
				not_before: w(72),
				signed: b[76] == 1,
				domain: b[77],
				topping: b[78..81].to_vec(),
			})),
			_ => Err("version".into()),
		}
	}
}
pub mod traits {
	use super::*;
	pub trait DoughnutApi {
		fn holder(&self) -> [u8; 33];
		fn issuer(&self) -> [u8; 33];
		fn fee_payer(&self) -> [u8; 33];
		fn expiry(&self) -> u32;
		fn not_before(&self) -> u32;
		fn get_topping(&self, domain: &str) -> Option<&[u8]>;
		fn validate<R: TryInto<u32>>(&self, who: [u8; 33], now: R) -> Result<(), Invalid>;
	}
	pub trait DoughnutVerify {
		fn verify(&self) -> Result<(), Invalid>;
	}
	impl DoughnutApi for DoughnutV1 {
		fn holder(&self) -> [u8; 33] {
			self.holder
		}
		fn issuer(&self) -> [u8; 33] {
			self.issuer
		}
		fn fee_payer(&self) -> [u8; 33] {
			if self.fee_mode == 0 {
				self.issuer
			} else {
				self.holder
			}
		}
		fn expiry(&self) -> u32 {
			self.expiry
		}
		fn not_before(&self) -> u32 {
			self.not_before
		}
		fn get_topping(&self, domain: &str) -> Option<&[u8]> {
			if domain == "trn" && self.domain == 1 || domain == "other" && self.domain == 2 {
				Some(&self.topping)
			} else {
				None
			}
		}
		fn validate<R: TryInto<u32>>(&self, who: [u8; 33], now: R) -> Result<(), Invalid> {
			if who != self.holder {
				return Err(Invalid::Holder);
			}
			let now = now.try_into().map_err(|_| Invalid::Expired)?;
			if now < self.not_before {
				return Err(Invalid::Premature);
			}
			if now >= self.expiry {
				return Err(Invalid::Expired);
			}
			Ok(())
		}
	}
	impl DoughnutVerify for DoughnutV1 {
		fn verify(&self) -> Result<(), Invalid> {
			if self.signed {
				Ok(())
			} else {
				Err(Invalid::Holder)
			}
		}
	}
}
#[derive(Clone, PartialEq, Debug)]
pub struct Topping(pub u8, pub u8);
impl Encode for Topping {
	fn encode_to<O: Output + ?Sized>(&self, _o: &mut O) {}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for Topping {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let mut b = [0u8; 3];
		i.read(&mut b)?;
		if b[0] != 1 {
			return Err("topping".into());
		}
		Ok(Topping(b[1], b[2]))
	}
}
pub mod signature {
	pub enum SignatureVersion {
		ECDSA = 0,
		EIP191 = 1,
	}
	/// What `signer` produces for `payload`: nothing else verifies as his.
	pub fn sign(version: u8, signer: &[u8; 33], payload: &[u8]) -> Vec<u8> {
		let mut r = vec![version];
		r.extend_from_slice(signer);
		r.extend_from_slice(payload);
		r
	}
	pub mod crypto {
		pub fn verify_signature(version: u8, signature: &[u8], signer: &[u8; 33], payload: &[u8]) -> Result<(), super::super::Invalid> {
			if signature == &super::sign(version, signer, payload)[..] {
				Ok(())
			} else {
				Err(super::super::Invalid::Holder)
			}
		}
	}
}
