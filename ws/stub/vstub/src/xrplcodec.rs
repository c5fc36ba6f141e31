//! `xrpl_codec`: the transactions the bridge asks the notaries to sign. The wire format of the XRP Ledger is
//! not reproduced: a transaction is written out as its kind followed by every field, so that two
//! transactions have the same bytes exactly if they are the same transaction.
pub mod traits {
	pub trait BinarySerialize {
		fn binary_serialize(&self, for_signing: bool) -> Vec<u8>;
	}
}
pub mod field {
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Amount(pub super::types::AmountType);
}
pub mod types {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct AccountIdType(pub [u8; 20]);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum AmountType {
		Drops(u64),
		Issued(IssuedAmountType),
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct IssuedValueType {
		pub mantissa: i64,
		pub exponent: i8,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum CurrencyCodeType {
		Standard([u8; 3]),
		NonStandard([u8; 20]),
	}
	impl CurrencyCodeType {
		pub fn is_valid(&self) -> bool {
			match self {
				Self::Standard(c) => (c[0] != b'X') | (c[1] != b'R') | (c[2] != b'P'),
				Self::NonStandard(c) => c[0] != 0,
			}
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct IssuedAmountType {
		pub value: IssuedValueType,
		pub currency: CurrencyCodeType,
		pub issuer: AccountIdType,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Refused;
	impl IssuedValueType {
		pub fn from_mantissa_exponent(mantissa: i64, exponent: i8) -> Result<Self, Refused> {
			// normalised, the mantissa has 16 digits and the exponent lies in -96..=80
			if (mantissa > 9_999_999_999_999_999) | (mantissa < -9_999_999_999_999_999) | (exponent > 80) | (exponent < -81) {
				return Err(Refused);
			}
			Ok(Self { mantissa, exponent })
		}
	}
	impl IssuedAmountType {
		pub fn from_issued_value(value: IssuedValueType, currency: CurrencyCodeType, issuer: AccountIdType) -> Result<Self, Refused> {
			if !currency.is_valid() {
				return Err(Refused);
			}
			Ok(Self { value, currency, issuer })
		}
	}
}
pub mod transaction {
	use super::{field::Amount, traits::BinarySerialize, types::*};
	type Key = Option<[u8; 33]>;
	macro_rules! tx {
		($n:ident, $kind:expr, $($f:ident: $t:ty),*) => {
			#[derive(Clone, Debug, PartialEq, Eq)]
			pub struct $n { $(pub $f: $t,)* pub signing_pub_key: Key }
			impl $n {
				#[allow(clippy::too_many_arguments)]
				pub fn new($($f: $t,)* signing_pub_key: Key) -> Self {
					Self { $($f,)* signing_pub_key }
				}
			}
			impl BinarySerialize for $n {
				fn binary_serialize(&self, for_signing: bool) -> Vec<u8> {
					let mut o = vec![$kind, for_signing as u8, self.signing_pub_key.is_some() as u8];
					$(self.$f.put(&mut o);)*
					o
				}
			}
		};
	}
	trait Put {
		fn put(&self, o: &mut Vec<u8>);
	}
	impl Put for [u8; 20] {
		fn put(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(self)
		}
	}
	impl Put for [u8; 32] {
		fn put(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(self)
		}
	}
	impl Put for u32 {
		fn put(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(&self.to_be_bytes())
		}
	}
	impl Put for u64 {
		fn put(&self, o: &mut Vec<u8>) {
			o.extend_from_slice(&self.to_be_bytes())
		}
	}
	impl Put for Vec<([u8; 20], u16)> {
		fn put(&self, o: &mut Vec<u8>) {
			o.push(self.len() as u8);
			for (a, w) in self {
				o.extend_from_slice(a);
				o.extend_from_slice(&w.to_be_bytes());
			}
		}
	}
	impl Put for Amount {
		fn put(&self, o: &mut Vec<u8>) {
			match &self.0 {
				AmountType::Drops(x) => {
					o.push(0);
					x.put(o)
				},
				AmountType::Issued(x) => {
					o.push(1);
					o.extend_from_slice(&x.value.mantissa.to_be_bytes());
					o.push(x.value.exponent as u8);
					match &x.currency {
						CurrencyCodeType::Standard(c) => {
							o.push(0);
							o.extend_from_slice(c)
						},
						CurrencyCodeType::NonStandard(c) => {
							o.push(1);
							o.extend_from_slice(c)
						},
					}
					o.extend_from_slice(&x.issuer.0);
				},
			}
		}
	}
	tx!(Payment, 1, account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32);
	tx!(PaymentWithDestinationTag, 2, account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, destination_tag: u32);
	tx!(PaymentAltCurrency, 3, account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32);
	tx!(PaymentAltCurrencyWithDestinationTag, 4, account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, destination_tag: u32);
	tx!(SignerListSet, 5, account: [u8; 20], fee: u64, nonce: u32, ticket: u32, quorum: u32, entries: Vec<([u8; 20], u16)>, source_tag: u32);
	tx!(NFTokenAcceptOffer, 6, account: [u8; 20], sell_offer: [u8; 32], nonce: u32, ticket: u32, fee: u64, source_tag: u32);
	tx!(NFTokenCreateOffer, 7, account: [u8; 20], destination: [u8; 20], nftoken_id: [u8; 32], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32);
}
