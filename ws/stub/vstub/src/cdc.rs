//! SCALE codec model: same wire format as parity-scale-codec for the types used by trn-seed.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Error;
impl From<&'static str> for Error {
	fn from(_: &'static str) -> Self {
		Error
	}
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("codec")
	}
}
pub trait Output {
	fn write(&mut self, b: &[u8]);
	fn push_byte(&mut self, b: u8) {
		self.write(&[b])
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, b: &[u8]) {
		self.extend_from_slice(b)
	}
	fn push_byte(&mut self, b: u8) {
		self.push(b)
	}
}
pub trait Input {
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
}
impl<'a> Input for &'a [u8] {
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err(Error);
		}
		let (a, b) = self.split_at(into.len());
		into.copy_from_slice(a);
		*self = b;
		Ok(())
	}
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
}
pub trait Encode {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O);
	fn encode(&self) -> Vec<u8> {
		let mut v = Vec::new();
		self.encode_to(&mut v);
		v
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
	fn size_hint(&self) -> usize {
		0
	}
	/// Structural copy / equality: used only by the storage model, in the place of an
	/// encode-decode round trip and of the comparison of encoded keys.
	fn sclone(&self) -> Self
	where
		Self: Sized;
	fn seq(&self, o: &Self) -> bool
	where
		Self: Sized;
}
pub trait Decode: Sized {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error>;
}
pub trait DecodeAll: Sized {
	fn decode_all(inp: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(inp: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(inp)?;
		if inp.is_empty() {
			Ok(r)
		} else {
			Err(Error)
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_with_depth_limit<I: Input>(_l: u32, inp: &mut I) -> Result<Self, Error>;
	fn decode_all_with_depth_limit(_l: u32, inp: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_with_depth_limit<I: Input>(_l: u32, inp: &mut I) -> Result<Self, Error> {
		T::decode(inp)
	}
	fn decode_all_with_depth_limit(_l: u32, inp: &mut &[u8]) -> Result<Self, Error> {
		T::decode_all(inp)
	}
}
pub trait Codec: Encode + Decode {}
impl<T: Encode + Decode> Codec for T {}
pub trait FullCodec: Encode + Decode {}
impl<T: Encode + Decode> FullCodec for T {}
pub trait FullEncode: Encode {}
impl<T: Encode> FullEncode for T {}
pub trait MaxEncodedLen {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<T: ?Sized> MaxEncodedLen for T {}
pub trait TypeInfo {}
impl<T: ?Sized> TypeInfo for T {}
pub trait ConstEncodedLen {}
pub trait WrapperTypeEncode {}
pub trait WrapperTypeDecode {}

pub trait EncodeLike<T = Self> {
	fn into_like(self) -> T;
}
impl<T> EncodeLike<T> for T {
	fn into_like(self) -> T {
		self
	}
}
impl<'a, T: Encode> EncodeLike<T> for &'a T {
	fn into_like(self) -> T {
		self.sclone()
	}
}
impl<'a, 'b, T: Encode> EncodeLike<T> for &'b &'a T {
	fn into_like(self) -> T {
		(**self).sclone()
	}
}
impl<'a, A, B: Encode> EncodeLike<(A, B)> for (A, &'a B) {
	fn into_like(self) -> (A, B) {
		(self.0, self.1.sclone())
	}
}
impl<'a, A: Encode, B> EncodeLike<(A, B)> for (&'a A, B) {
	fn into_like(self) -> (A, B) {
		(self.0.sclone(), self.1)
	}
}
impl<'a, 'b, A: Encode, B: Encode> EncodeLike<(A, B)> for (&'a A, &'b B) {
	fn into_like(self) -> (A, B) {
		(self.0.sclone(), self.1.sclone())
	}
}
impl<'a, T: Encode> EncodeLike<Vec<T>> for &'a [T] {
	fn into_like(self) -> Vec<T> {
		self.iter().map(|x| x.sclone()).collect()
	}
}

macro_rules! num {
	($($t:ty),*) => {$(
		impl Encode for $t {
			fn encode_to<O: Output + ?Sized>(&self, out: &mut O) { out.write(&self.to_le_bytes()) }
			fn sclone(&self) -> Self { *self }
			fn seq(&self, o: &Self) -> bool { *self == *o }
		}
		impl Decode for $t {
			fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; core::mem::size_of::<$t>()];
				inp.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
		}
	)*};
}
num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Encode for bool {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		out.push_byte(*self as u8)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		*self == *o
	}
}
impl Decode for bool {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		match inp.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err(Error),
		}
	}
}
impl<T: ?Sized> Encode for PhantomData<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
	fn sclone(&self) -> Self {
		PhantomData
	}
	fn seq(&self, _: &Self) -> bool {
		true
	}
}
impl<T: ?Sized> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
pub fn encode_len<O: Output + ?Sized>(n: usize, out: &mut O) {
	let n = n as u32;
	if n < 64 {
		out.push_byte((n as u8) << 2)
	} else if n < 1 << 14 {
		out.write(&((n as u16) << 2 | 1).to_le_bytes())
	} else if n < 1 << 30 {
		out.write(&(n << 2 | 2).to_le_bytes())
	} else {
		out.push_byte(3);
		out.write(&n.to_le_bytes())
	}
}
pub fn decode_len<I: Input>(inp: &mut I) -> Result<usize, Error> {
	Ok(Compact::<u32>::decode(inp)?.0 as usize)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Compact<T>(pub T);
pub trait HasCompact: Sized {
	type Type;
}
impl<T> HasCompact for T {
	type Type = Compact<T>;
}
impl<T> From<T> for Compact<T> {
	fn from(x: T) -> Self {
		Compact(x)
	}
}
macro_rules! compact {
	($($t:ty),*) => {$(
		impl Encode for Compact<$t> {
			fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
				let n = self.0 as u128;
				if n < 1 << 30 { encode_len(n as usize, out) } else {
					let mut k = 4usize;
					while k < 16 && (n >> (8 * k)) != 0 { k += 1 }
					out.push_byte(3 + ((k as u8 - 4) << 2));
					out.write(&n.to_le_bytes()[..k]);
				}
			}
			fn sclone(&self) -> Self { *self }
			fn seq(&self, o: &Self) -> bool { *self == *o }
		}
		impl Decode for Compact<$t> {
			fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
				let b = inp.read_byte()?;
				let v: u128 = match b & 3 {
					0 => (b >> 2) as u128,
					1 => { let c = inp.read_byte()?; let x = (u16::from_le_bytes([b, c]) >> 2) as u128; if x < 64 { return Err(Error) } x }
					2 => { let mut r = [0u8; 3]; inp.read(&mut r)?; let x = (u32::from_le_bytes([b, r[0], r[1], r[2]]) >> 2) as u128; if x < 1 << 14 { return Err(Error) } x }
					_ => {
						let k = (b >> 2) as usize + 4;
						if k > 16 { return Err(Error) }
						let mut r = [0u8; 16];
						inp.read(&mut r[..k])?;
						let x = u128::from_le_bytes(r);
						if k == 4 { if x < 1 << 30 { return Err(Error) } } else if x >> (8 * (k - 1)) == 0 { return Err(Error) }
						x
					}
				};
				<$t>::try_from(v).map(Compact).map_err(|_| Error)
			}
		}
	)*};
}
compact!(u8, u16, u32, u64, u128);

impl<'a, T: Encode + ?Sized> Encode for &'a T {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		(**self).encode_to(out)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, _: &Self) -> bool {
		unimplemented!()
	}
}
impl<T: Encode> Encode for [T] {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		encode_len(self.len(), out);
		for x in self {
			x.encode_to(out)
		}
	}
	fn sclone(&self) -> Self
	where
		Self: Sized,
	{
		unimplemented!()
	}
	fn seq(&self, _: &Self) -> bool
	where
		Self: Sized,
	{
		unimplemented!()
	}
}
impl Encode for str {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		self.as_bytes().encode_to(out)
	}
}
pub fn slice_seq<T: Encode>(a: &[T], b: &[T]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut i = 0;
	while i < a.len() {
		if !a[i].seq(&b[i]) {
			return false;
		}
		i += 1;
	}
	true
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		for x in self {
			x.encode_to(out)
		}
	}
	fn sclone(&self) -> Self {
		core::array::from_fn(|i| self[i].sclone())
	}
	fn seq(&self, o: &Self) -> bool {
		let mut r = true;
		for i in 0..N {
			r &= self[i].seq(&o[i]);
		}
		r
	}
}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(inp)?)
		}
		v.try_into().map_err(|_| Error)
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		self.as_slice().encode_to(out)
	}
	fn sclone(&self) -> Self {
		let mut v = Vec::with_capacity(self.len());
		for x in self {
			v.push(x.sclone())
		}
		v
	}
	fn seq(&self, o: &Self) -> bool {
		slice_seq(self, o)
	}
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		let n = decode_len(inp)?;
		let mut v = Vec::new();
		for _ in 0..n {
			v.push(T::decode(inp)?)
		}
		Ok(v)
	}
}
impl<T: Encode> Encode for VecDeque<T> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		encode_len(self.len(), out);
		for x in self {
			x.encode_to(out)
		}
	}
	fn sclone(&self) -> Self {
		self.iter().map(|x| x.sclone()).collect()
	}
	fn seq(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.seq(b))
	}
}
impl<T: Decode> Decode for VecDeque<T> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Vec::<T>::decode(inp).map(Into::into)
	}
}
impl Encode for String {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		self.as_bytes().encode_to(out)
	}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for String {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(inp)?).map_err(|_| Error)
	}
}
impl<T: Encode> Encode for Box<T> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		(**self).encode_to(out)
	}
	fn sclone(&self) -> Self {
		Box::new((**self).sclone())
	}
	fn seq(&self, o: &Self) -> bool {
		(**self).seq(&**o)
	}
}
impl<T: Decode> Decode for Box<T> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		T::decode(inp).map(Box::new)
	}
}
impl<T: Encode> Encode for Option<T> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		match self {
			None => out.push_byte(0),
			Some(x) => {
				out.push_byte(1);
				x.encode_to(out)
			},
		}
	}
	fn sclone(&self) -> Self {
		self.as_ref().map(|x| x.sclone())
	}
	fn seq(&self, o: &Self) -> bool {
		match (self, o) {
			(Some(a), Some(b)) => a.seq(b),
			(None, None) => true,
			_ => false,
		}
	}
}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		match inp.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(inp)?)),
			_ => Err(Error),
		}
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		match self {
			Ok(x) => {
				out.push_byte(0);
				x.encode_to(out)
			},
			Err(x) => {
				out.push_byte(1);
				x.encode_to(out)
			},
		}
	}
	fn sclone(&self) -> Self {
		match self {
			Ok(x) => Ok(x.sclone()),
			Err(x) => Err(x.sclone()),
		}
	}
	fn seq(&self, o: &Self) -> bool {
		match (self, o) {
			(Ok(a), Ok(b)) => a.seq(b),
			(Err(a), Err(b)) => a.seq(b),
			_ => false,
		}
	}
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		match inp.read_byte()? {
			0 => Ok(Ok(T::decode(inp)?)),
			1 => Ok(Err(E::decode(inp)?)),
			_ => Err(Error),
		}
	}
}
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		encode_len(self.len(), out);
		for (k, v) in self {
			k.encode_to(out);
			v.encode_to(out)
		}
	}
	fn sclone(&self) -> Self {
		self.iter().map(|(k, v)| (k.sclone(), v.sclone())).collect()
	}
	fn seq(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.0.seq(b.0) && a.1.seq(b.1))
	}
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Vec::<(K, V)>::decode(inp).map(|v| v.into_iter().collect())
	}
}
impl<K: Encode + Ord> Encode for BTreeSet<K> {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		encode_len(self.len(), out);
		for k in self {
			k.encode_to(out);
		}
	}
	fn sclone(&self) -> Self {
		self.iter().map(|k| k.sclone()).collect()
	}
	fn seq(&self, o: &Self) -> bool {
		self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.seq(b))
	}
}
impl<K: Decode + Ord> Decode for BTreeSet<K> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Vec::<K>::decode(inp).map(|v| v.into_iter().collect())
	}
}
macro_rules! tup {
	($($n:ident $i:tt),*) => {
		impl<$($n: Encode),*> Encode for ($($n,)*) {
			#[allow(unused)]
			fn encode_to<OO: Output + ?Sized>(&self, out: &mut OO) { $(self.$i.encode_to(out);)* }
			fn sclone(&self) -> Self { ($(self.$i.sclone(),)*) }
			#[allow(unused)]
			fn seq(&self, o: &Self) -> bool { true $(&& self.$i.seq(&o.$i))* }
		}
		impl<$($n: Decode),*> Decode for ($($n,)*) {
			#[allow(unused)]
			fn decode<II: Input>(inp: &mut II) -> Result<Self, Error> { Ok(($($n::decode(inp)?,)*)) }
		}
	};
}
tup!();
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
