//! Model of sp_io. Hash functions and signature recovery are uninterpreted: the result for a new input is
//! an arbitrary value (hashes: different from every earlier result, i.e. collision-free); the same input
//! always gives the same result.
use crate::sx;
struct Table {
	t: Vec<(u8, Vec<u8>, [u8; 32])>,
}
static mut HASHES: Table = Table { t: Vec::new() };
static mut ECREC: Vec<(Vec<u8>, Result<[u8; 64], u8>)> = Vec::new();
fn h(dom: u8, d: &[u8]) -> [u8; 32] {
	let t = unsafe { &mut (*core::ptr::addr_of_mut!(HASHES)).t };
	for (k, x, r) in t.iter() {
		if *k == dom && x.len() == d.len() && x.as_slice() == d {
			return *r;
		}
	}
	let r: [u8; 32] = sx::bytes();
	for (_, _, o) in t.iter() {
		sx::assume(*o != r);
		// also collision-free on the last 20 bytes (Ethereum addresses)
		sx::assume(o[12..] != r[12..]);
		if dom == 1 {
			// and on the first 20 (accounts derived by decoding a hash)
			sx::assume(o[..20] != r[..20]);
		}
	}
	t.push((dom, d.to_vec(), r));
	r
}
pub mod hashing {
	use super::h;
	pub fn keccak_256(d: &[u8]) -> [u8; 32] {
		h(0, d)
	}
	pub fn blake2_256(d: &[u8]) -> [u8; 32] {
		h(1, d)
	}
	pub fn sha2_256(d: &[u8]) -> [u8; 32] {
		h(2, d)
	}
	pub fn twox_128(d: &[u8]) -> [u8; 16] {
		let mut r = [0; 16];
		r.copy_from_slice(&h(3, d)[..16]);
		r
	}
	pub fn twox_64(d: &[u8]) -> [u8; 8] {
		let mut r = [0; 8];
		r.copy_from_slice(&h(4, d)[..8]);
		r
	}
	pub fn blake2_128(d: &[u8]) -> [u8; 16] {
		let mut r = [0; 16];
		r.copy_from_slice(&h(5, d)[..16]);
		r
	}
	pub fn ripemd160(d: &[u8]) -> [u8; 20] {
		let mut r = [0; 20];
		r.copy_from_slice(&h(6, d)[12..]);
		r
	}
	pub fn sha512(d: &[u8]) -> [u8; 64] {
		let mut r = [0; 64];
		r[..32].copy_from_slice(&h(7, d));
		r
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EcdsaVerifyError {
	BadRS,
	BadV,
	BadSignature,
}
pub mod crypto {
	use super::*;
	pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
		let mut k = sig.to_vec();
		k.extend_from_slice(msg);
		let t = unsafe { &mut *core::ptr::addr_of_mut!(ECREC) };
		let mut found = None;
		for (x, r) in t.iter() {
			if x.as_slice() == k.as_slice() {
				found = Some(*r);
				break;
			}
		}
		let r = match found {
			Some(r) => r,
			None => {
				let r = if sx::bool() { Ok(sx::bytes::<64>()) } else { Err(sx::below(3) as u8) };
				t.push((k, r));
				r
			},
		};
		r.map_err(|e| match e {
			0 => EcdsaVerifyError::BadRS,
			1 => EcdsaVerifyError::BadV,
			_ => EcdsaVerifyError::BadSignature,
		})
	}
	pub fn secp256k1_ecdsa_recover_compressed(_sig: &[u8; 65], _msg: &[u8; 32]) -> Result<[u8; 33], EcdsaVerifyError> {
		unimplemented!()
	}
	pub fn ecdsa_verify_prehashed(_s: &crate::core_::ecdsa::Signature, _m: &[u8; 32], _p: &crate::core_::ecdsa::Public) -> bool {
		sx::bool()
	}
}
pub mod offchain {
	pub fn is_validator() -> bool {
		crate::sx::bool()
	}
	pub fn timestamp() -> crate::rt::offchain::Timestamp {
		crate::rt::offchain::Timestamp::from_unix_millis(crate::sx::u64())
	}
	pub fn sleep_until(_: crate::rt::offchain::Timestamp) {}
	pub fn random_seed() -> [u8; 32] {
		crate::sx::bytes()
	}
	pub fn local_storage_get(_k: crate::rt::offchain::StorageKind, _key: &[u8]) -> Option<Vec<u8>> {
		None
	}
	pub fn local_storage_set(_k: crate::rt::offchain::StorageKind, _key: &[u8], _v: &[u8]) {}
	pub fn local_storage_compare_and_set(_k: crate::rt::offchain::StorageKind, _key: &[u8], _o: Option<Vec<u8>>, _v: &[u8]) -> bool {
		true
	}
}
pub mod storage {
	pub fn root(_v: u8) -> Vec<u8> {
		vec![]
	}
}
pub struct TestExternalities;
static mut SIGS: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)> = Vec::new();
/// Signature verification as an uninterpreted predicate of (message, key, signature).
pub fn sig_verify(m: &[u8], k: &[u8], s: &[u8]) -> bool {
	let t = unsafe { &mut *core::ptr::addr_of_mut!(SIGS) };
	for (a, b, c, r) in t.iter() {
		if a.as_slice() == m && b.as_slice() == k && c.as_slice() == s {
			return *r;
		}
	}
	let r = sx::bool();
	t.push((m.to_vec(), k.to_vec(), s.to_vec(), r));
	r
}

/// The secp256k1 keys in the node's keystore.
pub static mut KEYS: Vec<[u8; 33]> = Vec::new();
pub fn local_keys() -> &'static Vec<[u8; 33]> {
	unsafe { &*core::ptr::addr_of!(KEYS) }
}
/// Some signature of a local key that verifies.
pub fn sign(m: &[u8], k: &[u8]) -> Option<[u8; 65]> {
	if !local_keys().iter().any(|x| x.as_slice() == k) {
		return None;
	}
	let s = sx::bytes::<65>();
	sx::assume(sig_verify(m, k, &s));
	Some(s)
}
