//! `xrpl_binary_codec`, `xrpl_types` and `serde_json` as pallet-xrpl uses them. The wire format of the XRP
//! Ledger is not reproduced: a message is a list of its fields with their lengths, and so are the bytes
//! that are signed, so that two transactions have the same bytes exactly if they are the same transaction.
pub mod value {
	use serde::de::value::{MapDeserializer, SeqDeserializer};
	use serde::de::{self, IntoDeserializer, Visitor};
	/// A JSON value without numbers.
	#[derive(Clone, Debug)]
	pub enum Value {
		Str(String),
		Arr(Vec<Value>),
		Obj(Vec<(&'static str, Value)>),
	}
	#[derive(Clone, Copy)]
	pub struct Error;
	impl core::fmt::Debug for Error {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			f.write_str("Error")
		}
	}
	impl core::fmt::Display for Error {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			f.write_str("Error")
		}
	}
	impl std::error::Error for Error {}
	impl de::Error for Error {
		fn custom<T: core::fmt::Display>(_: T) -> Self {
			Error
		}
		fn missing_field(_: &'static str) -> Self {
			Error
		}
		fn duplicate_field(_: &'static str) -> Self {
			Error
		}
	}
	impl<'de> IntoDeserializer<'de, Error> for Value {
		type Deserializer = Value;
		fn into_deserializer(self) -> Value {
			self
		}
	}
	impl<'de> de::Deserializer<'de> for Value {
		type Error = Error;
		fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
			match self {
				Value::Str(s) => v.visit_string(s),
				Value::Arr(a) => v.visit_seq(SeqDeserializer::<_, Error>::new(a.into_iter())),
				Value::Obj(o) => v.visit_map(MapDeserializer::<_, Error>::new(o.into_iter())),
			}
		}
		serde::forward_to_deserialize_any! {
			bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
			unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
		}
	}
	pub fn from_value<T: serde::de::DeserializeOwned>(v: Value) -> Result<T, Error> {
		T::deserialize(v)
	}
}
fn hex(b: &[u8]) -> String {
	let d = |n: u8| if n < 10 { b'0' + n } else { b'A' - 10 + n };
	let mut v = Vec::with_capacity(2 * b.len());
	for x in b {
		v.push(d(x >> 4));
		v.push(d(x & 15));
	}
	unsafe { String::from_utf8_unchecked(v) }
}
fn unhex(s: &[u8]) -> Option<Vec<u8>> {
	if s.len() % 2 == 1 {
		return None;
	}
	let d = |c: u8| if c < b'A' { c - b'0' } else if c < b'a' { c - b'A' + 10 } else { c - b'a' + 10 };
	Some(s.chunks(2).map(|c| (d(c[0]) << 4) | d(c[1])).collect())
}
/// The fields of a transaction.
pub struct Fields {
	pub account: Vec<u8>,
	pub txn: Option<Vec<u8>>,
	pub key: Vec<u8>,
	pub memos: Vec<(Vec<u8>, Vec<u8>)>,
}
fn put(b: &mut Vec<u8>, x: &[u8]) {
	b.extend_from_slice(&(x.len() as u16).to_be_bytes());
	b.extend_from_slice(x);
}
fn take(b: &mut &[u8]) -> Option<Vec<u8>> {
	if b.len() < 2 {
		return None;
	}
	let n = u16::from_be_bytes([b[0], b[1]]) as usize;
	if b.len() < 2 + n {
		return None;
	}
	let r = b[2..2 + n].to_vec();
	*b = &b[2 + n..];
	Some(r)
}
impl Fields {
	pub fn bytes(&self) -> Vec<u8> {
		let mut b = vec![0x12, self.txn.is_some() as u8, self.memos.len() as u8];
		put(&mut b, &self.account);
		if let Some(t) = &self.txn {
			put(&mut b, t);
		}
		put(&mut b, &self.key);
		for (t, d) in &self.memos {
			put(&mut b, t);
			put(&mut b, d);
		}
		b
	}
	fn parse(b: &[u8]) -> Option<Fields> {
		if b.len() < 3 || b[0] != 0x12 {
			return None;
		}
		let (has, n) = (b[1] == 1, b[2]);
		let b = &mut &b[3..];
		let account = take(b)?;
		let txn = if has { Some(take(b)?) } else { None };
		let key = take(b)?;
		let mut memos = vec![];
		for _ in 0..n {
			memos.push((take(b)?, take(b)?));
		}
		Some(Fields { account, txn, key, memos })
	}
}
pub mod deserializer {
	use super::value::Value;
	use super::*;
	pub struct Deserializer;
	impl Deserializer {
		pub fn new(_b: Vec<u8>, _f: ()) -> Self {
			Deserializer
		}
		pub fn to_json(&mut self, _t: &serializer::field_id::TypeCode, b: &[u8]) -> Result<Value, &'static str> {
			let f = Fields::parse(b).ok_or("message")?;
			if f.account.len() != 20 {
				return Err("account");
			}
			let s = |x: &[u8]| Value::Str(hex(x));
			let mut o = vec![("Account", Value::Str(format!("r{}", hex(&f.account))))];
			if let Some(t) = &f.txn {
				o.push(("AccountTxnID", s(t)));
			}
			o.push(("SigningPubKey", s(&f.key)));
			let m = f.memos.iter().map(|(t, d)| Value::Obj(vec![("Memo", Value::Obj(vec![("MemoData", s(d)), ("MemoType", s(t))]))])).collect();
			o.push(("Memos", Value::Arr(m)));
			Ok(Value::Obj(o))
		}
	}
}
pub mod serializer {
	pub mod field_id {
		pub enum TypeCode {
			Object,
		}
	}
	pub mod field_info {
		pub fn field_info_lookup() {}
	}
	pub struct Serializer(pub Vec<u8>);
	impl Serializer {
		pub fn new() -> Self {
			Serializer(vec![])
		}
		pub fn into_bytes(self) -> Result<Vec<u8>, &'static str> {
			Ok(self.0)
		}
	}
}
pub mod tys {
	use super::*;
	#[derive(Clone, Debug, Default, PartialEq)]
	pub struct Blob(pub Vec<u8>);
	#[derive(Clone, Debug, Default, PartialEq)]
	pub struct Hash256(pub [u8; 32]);
	#[derive(Clone, Debug, Default, PartialEq)]
	pub struct AccountId(pub [u8; 20]);
	#[derive(Clone, Debug, Default, PartialEq)]
	pub struct Memo {
		pub memo_data: Blob,
		pub memo_type: Blob,
		pub memo_format: Option<Blob>,
	}
	impl Blob {
		pub fn from_hex(s: &str) -> Result<Self, &'static str> {
			unhex(s.as_bytes()).map(Blob).ok_or("hex")
		}
	}
	impl Hash256 {
		pub fn from_hex(s: &str) -> Result<Self, &'static str> {
			Ok(Hash256(unhex(s.as_bytes()).ok_or("hex")?.try_into().map_err(|_| "length")?))
		}
	}
	impl AccountId {
		pub fn from_address(s: &str) -> Result<Self, &'static str> {
			let b = s.as_bytes();
			if b.len() != 41 || b[0] != b'r' {
				return Err("address");
			}
			Ok(AccountId(unhex(&b[1..]).ok_or("hex")?.try_into().map_err(|_| "length")?))
		}
	}
	pub mod types {
		use super::*;
		#[derive(Clone, Debug, Default, PartialEq)]
		pub struct TransactionCommon {
			pub account: AccountId,
			pub account_txn_id: Option<Hash256>,
			pub fee: Option<u64>,
			pub sequence: u32,
			pub last_ledger_sequence: Option<u32>,
			pub memos: Vec<Memo>,
			pub network_id: Option<u32>,
			pub source_tag: Option<u32>,
			pub signing_pub_key: Option<Blob>,
			pub ticket_sequence: Option<u32>,
			pub txn_signature: Option<Blob>,
		}
	}
	pub mod serialize {
		use super::*;
		pub trait Serialize {
			fn serialize(&self, s: &mut serializer::Serializer) -> Result<(), &'static str>;
		}
		impl Serialize for super::types::TransactionCommon {
			fn serialize(&self, s: &mut serializer::Serializer) -> Result<(), &'static str> {
				if self.fee.is_some() | (self.sequence != 0) | self.last_ledger_sequence.is_some() | self.network_id.is_some() | self.source_tag.is_some() | self.ticket_sequence.is_some() | self.txn_signature.is_some() {
					s.0.push(1);
				}
				let f = Fields {
					account: self.account.0.to_vec(),
					txn: self.account_txn_id.as_ref().map(|h| h.0.to_vec()),
					key: self.signing_pub_key.clone().unwrap_or_default().0,
					memos: self.memos.iter().map(|m| (m.memo_type.0.clone(), m.memo_data.0.clone())).collect(),
				};
				s.0.extend_from_slice(&f.bytes());
				Ok(())
			}
		}
	}
}
/// The signatures that were made: by which key, of what, and the signature.
pub static mut SIGNED: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();
pub fn sign(key: &[u8], msg: &[u8], sig: &[u8]) {
	unsafe { (*core::ptr::addr_of_mut!(SIGNED)).push((key.to_vec(), msg.to_vec(), sig.to_vec())) }
}
/// Ideal signatures: one that was made by that key, of that message, holds, and no other.
pub fn holds(key: &[u8], msg: &[u8], sig: &[u8]) -> bool {
	unsafe { (*core::ptr::addr_of!(SIGNED)).iter().any(|(k, m, s)| k.as_slice() == key && m.as_slice() == msg && s.as_slice() == sig) }
}
