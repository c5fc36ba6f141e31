//! `ethabi` 18: token encoding and (lenient) decoding, as the crate does it.
pub use crate::core_::{H160 as Address, U256};
use crate::core_::H160;
pub type Uint = U256;
pub type Bytes = Vec<u8>;
pub type FixedBytes = Vec<u8>;
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Token {
	Address(H160),
	FixedBytes(FixedBytes),
	Bytes(Bytes),
	Uint(U256),
	Int(U256),
	Bool(bool),
	Array(Vec<Token>),
	FixedArray(Vec<Token>),
	Tuple(Vec<Token>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ParamType {
	Address,
	Bytes,
	Int(usize),
	Uint(usize),
	Bool,
	Array(Box<ParamType>),
	FixedBytes(usize),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Error {
	InvalidName(&'static str),
	InvalidData,
}
impl Token {
	fn dynamic(&self) -> bool {
		match self {
			Token::Bytes(_) | Token::Array(_) => true,
			Token::FixedArray(v) | Token::Tuple(v) => v.iter().any(|t| t.dynamic()),
			_ => false,
		}
	}
	fn head_len(&self) -> usize {
		match self {
			Token::FixedArray(v) | Token::Tuple(v) if !self.dynamic() => v.iter().map(|t| t.head_len()).sum(),
			_ => 32,
		}
	}
}
fn word(out: &mut Vec<u8>, x: U256) {
	let mut b = [0u8; 32];
	x.to_big_endian(&mut b);
	out.extend_from_slice(&b);
}
fn enc_static(t: &Token, out: &mut Vec<u8>) {
	match t {
		Token::Address(a) => {
			out.extend_from_slice(&[0u8; 12]);
			out.extend_from_slice(&a.0);
		},
		Token::Uint(x) | Token::Int(x) => word(out, *x),
		Token::Bool(b) => word(out, U256::from(*b as u8)),
		Token::FixedBytes(b) => {
			out.extend_from_slice(b);
			let pad = (32 - b.len() % 32) % 32;
			out.extend_from_slice(&[0u8; 32][..pad]);
		},
		Token::FixedArray(v) | Token::Tuple(v) => v.iter().for_each(|t| enc_static(t, out)),
		_ => unreachable!(),
	}
}
fn enc_tail(t: &Token, out: &mut Vec<u8>) {
	match t {
		Token::Bytes(b) => {
			word(out, U256::from(b.len() as u64));
			out.extend_from_slice(b);
			let pad = (32 - b.len() % 32) % 32;
			out.extend_from_slice(&[0u8; 32][..pad]);
		},
		Token::Array(v) => {
			word(out, U256::from(v.len() as u64));
			enc_seq(v, out);
		},
		Token::FixedArray(v) | Token::Tuple(v) => enc_seq(v, out),
		_ => unreachable!(),
	}
}
fn enc_seq(v: &[Token], out: &mut Vec<u8>) {
	let head: usize = v.iter().map(|t| t.head_len()).sum();
	let mut tails: Vec<u8> = Vec::new();
	for t in v {
		if t.dynamic() {
			word(out, U256::from((head + tails.len()) as u64));
			enc_tail(t, &mut tails);
		} else {
			enc_static(t, out);
		}
	}
	out.extend_from_slice(&tails);
}
pub fn encode(v: &[Token]) -> Vec<u8> {
	let mut out = Vec::new();
	enc_seq(v, &mut out);
	out
}
fn peek(d: &[u8], o: usize) -> Result<&[u8], Error> {
	if o + 32 > d.len() {
		Err(Error::InvalidData)
	} else {
		Ok(&d[o..o + 32])
	}
}
/// An offset or length; anything beyond the data is bound to fail.
fn as_usize(w: &[u8], max: usize) -> Result<usize, Error> {
	// all of the first 28 bytes must be zero
	if w[..28].iter().fold(0u8, |a, b| a | b) != 0 {
		return Err(Error::InvalidData);
	}
	let v = (w[28] as usize) << 24 | (w[29] as usize) << 16 | (w[30] as usize) << 8 | w[31] as usize;
	if v > max {
		return Err(Error::InvalidData);
	}
	Ok(crate::sx::pick(v as u64) as usize)
}
fn dec(p: &ParamType, d: &[u8], o: usize) -> Result<(Token, usize), Error> {
	Ok(match p {
		ParamType::Address => {
			let w = peek(d, o)?;
			let mut a = [0u8; 20];
			a.copy_from_slice(&w[12..]);
			(Token::Address(H160(a)), o + 32)
		},
		ParamType::Uint(_) => (Token::Uint(U256::from_big_endian(peek(d, o)?)), o + 32),
		ParamType::Int(_) => (Token::Int(U256::from_big_endian(peek(d, o)?)), o + 32),
		ParamType::Bool => {
			let w = peek(d, o)?;
			if w[..31].iter().fold(0u8, |a, b| a | b) != 0 || w[31] > 1 {
				return Err(Error::InvalidData);
			}
			(Token::Bool(w[31] == 1), o + 32)
		},
		ParamType::FixedBytes(n) => {
			if o + n > d.len() {
				return Err(Error::InvalidData);
			}
			(Token::FixedBytes(d[o..o + n].to_vec()), o + 32)
		},
		ParamType::Bytes => {
			let at = as_usize(peek(d, o)?, d.len())?;
			let n = as_usize(peek(d, at)?, d.len())?;
			if at + 32 + n > d.len() {
				return Err(Error::InvalidData);
			}
			(Token::Bytes(d[at + 32..at + 32 + n].to_vec()), o + 32)
		},
		ParamType::Array(t) => {
			let at = as_usize(peek(d, o)?, d.len())?;
			let n = as_usize(peek(d, at)?, d.len())?;
			let tail = &d[at + 32..];
			let mut v = vec![];
			let mut p = 0;
			for _ in 0..n {
				let (x, q) = dec(t, tail, p)?;
				p = q;
				v.push(x);
			}
			(Token::Array(v), o + 32)
		},
	})
}
/// Like `ethabi::decode`: no range checks on integers, trailing data ignored.
pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
	if !types.is_empty() && data.is_empty() {
		return Err(Error::InvalidName("empty"));
	}
	let mut v = vec![];
	let mut o = 0;
	for t in types {
		let (x, q) = dec(t, data, o)?;
		o = q;
		v.push(x);
	}
	Ok(v)
}
