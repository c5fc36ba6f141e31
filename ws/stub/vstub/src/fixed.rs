//! Fixed-size hashes and U256.
use crate::cdc::*;
use crate::sx;
use std::fmt;
use std::ops::*;

macro_rules! hash {
	($n:ident, $l:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		#[repr(transparent)]
		pub struct $n(pub [u8; $l]);
		impl Default for $n {
			fn default() -> Self {
				$n([0; $l])
			}
		}
		impl $n {
			pub const fn zero() -> Self {
				$n([0; $l])
			}
			pub const fn repeat_byte(b: u8) -> Self {
				$n([b; $l])
			}
			pub fn from_slice(s: &[u8]) -> Self {
				assert_eq!(s.len(), $l);
				let mut r = [0u8; $l];
				r.copy_from_slice(s);
				$n(r)
			}
			pub const fn len_bytes() -> usize {
				$l
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_bytes_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
			pub const fn as_fixed_bytes(&self) -> &[u8; $l] {
				&self.0
			}
			pub fn as_fixed_bytes_mut(&mut self) -> &mut [u8; $l] {
				&mut self.0
			}
			pub const fn to_fixed_bytes(self) -> [u8; $l] {
				self.0
			}
			pub fn is_zero(&self) -> bool {
				self.0 == [0; $l]
			}
			pub fn from_low_u64_be(v: u64) -> Self {
				let mut r = [0u8; $l];
				r[$l - 8..].copy_from_slice(&v.to_be_bytes());
				$n(r)
			}
			pub fn from_low_u64_le(v: u64) -> Self {
				let mut r = [0u8; $l];
				r[..8].copy_from_slice(&v.to_le_bytes());
				$n(r)
			}
			pub fn to_low_u64_be(&self) -> u64 {
				let mut r = [0u8; 8];
				r.copy_from_slice(&self.0[$l - 8..]);
				u64::from_be_bytes(r)
			}
			pub fn any() -> Self {
				$n(sx::bytes())
			}
		}
		impl From<[u8; $l]> for $n {
			fn from(x: [u8; $l]) -> Self {
				$n(x)
			}
		}
		impl<'a> From<&'a [u8; $l]> for $n {
			fn from(x: &'a [u8; $l]) -> Self {
				$n(*x)
			}
		}
		impl From<$n> for [u8; $l] {
			fn from(x: $n) -> Self {
				x.0
			}
		}
		impl AsRef<[u8]> for $n {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $n {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl Index<usize> for $n {
			type Output = u8;
			fn index(&self, i: usize) -> &u8 {
				&self.0[i]
			}
		}
		impl Index<RangeFull> for $n {
			type Output = [u8];
			fn index(&self, _: RangeFull) -> &[u8] {
				&self.0
			}
		}
		impl Index<RangeFrom<usize>> for $n {
			type Output = [u8];
			fn index(&self, r: RangeFrom<usize>) -> &[u8] {
				&self.0[r]
			}
		}
		impl Index<Range<usize>> for $n {
			type Output = [u8];
			fn index(&self, r: Range<usize>) -> &[u8] {
				&self.0[r]
			}
		}
		impl Encode for $n {
			fn encode_to<O: crate::cdc::Output + ?Sized>(&self, out: &mut O) {
				out.write(&self.0)
			}
			fn sclone(&self) -> Self {
				*self
			}
			fn seq(&self, o: &Self) -> bool {
				self.0 == o.0
			}
		}
		impl Decode for $n {
			fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
				let mut r = [0u8; $l];
				inp.read(&mut r)?;
				Ok($n(r))
			}
		}
		impl fmt::Debug for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl fmt::Display for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl fmt::LowerHex for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl std::str::FromStr for $n {
			type Err = ();
			fn from_str(s: &str) -> Result<Self, ()> {
				let s = s.strip_prefix("0x").unwrap_or(s).as_bytes();
				if s.len() != 2 * $l {
					return Err(());
				}
				let h = |c: u8| match c {
					b'0'..=b'9' => Ok(c - b'0'),
					b'a'..=b'f' => Ok(c - b'a' + 10),
					b'A'..=b'F' => Ok(c - b'A' + 10),
					_ => Err(()),
				};
				let mut r = [0u8; $l];
				for i in 0..$l {
					r[i] = h(s[2 * i])? << 4 | h(s[2 * i + 1])?;
				}
				Ok($n(r))
			}
		}
		impl serde::Serialize for $n {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_bytes(&self.0)
			}
		}
		impl<'de> serde::Deserialize<'de> for $n {
			fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
				Err(serde::de::Error::custom("stub"))
			}
		}
	};
}
hash!(H64, 8);
hash!(H160, 20);
hash!(H256, 32);
hash!(H512, 64);
impl From<H160> for H256 {
	fn from(x: H160) -> H256 {
		let mut r = [0u8; 32];
		r[12..].copy_from_slice(&x.0);
		H256(r)
	}
}
impl From<H256> for H160 {
	fn from(x: H256) -> H160 {
		H160::from_slice(&x.0[12..])
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash)]
#[repr(C)]
pub struct U256(pub [u64; 4]);
impl U256 {
	pub const MAX: U256 = U256([u64::MAX; 4]);
	pub const fn zero() -> Self {
		U256([0; 4])
	}
	pub const fn one() -> Self {
		U256([1, 0, 0, 0])
	}
	pub const fn max_value() -> Self {
		Self::MAX
	}
	pub fn any() -> Self {
		U256([sx::u64(), sx::u64(), sx::u64(), sx::u64()])
	}
	pub fn is_zero(&self) -> bool {
		(self.0[0] | self.0[1] | self.0[2] | self.0[3]) == 0
	}
	pub const fn low_u32(&self) -> u32 {
		self.0[0] as u32
	}
	pub const fn low_u64(&self) -> u64 {
		self.0[0]
	}
	pub const fn low_u128(&self) -> u128 {
		(self.0[1] as u128) << 64 | self.0[0] as u128
	}
	pub fn as_u32(&self) -> u32 {
		if !self.fits(64) || self.0[0] > u32::MAX as u64 {
			panic!("Integer overflow when casting to u32")
		}
		self.0[0] as u32
	}
	fn fits(&self, b: u32) -> bool {
		match b {
			64 => (self.0[1] | self.0[2] | self.0[3]) == 0,
			_ => (self.0[2] | self.0[3]) == 0,
		}
	}
	pub fn as_u64(&self) -> u64 {
		if !self.fits(64) {
			panic!("Integer overflow when casting to u64")
		}
		self.0[0]
	}
	pub fn as_usize(&self) -> usize {
		self.as_u64() as usize
	}
	pub fn as_u128(&self) -> u128 {
		if !self.fits(128) {
			panic!("Integer overflow when casting to u128")
		}
		self.low_u128()
	}
	pub fn overflowing_add(self, o: U256) -> (U256, bool) {
		let r = sx::u256_op(0, &self.0, &o.0);
		(U256(r.0), r.1)
	}
	pub fn overflowing_sub(self, o: U256) -> (U256, bool) {
		let r = sx::u256_op(1, &self.0, &o.0);
		(U256(r.0), r.1)
	}
	pub fn overflowing_mul(self, o: U256) -> (U256, bool) {
		let r = sx::u256_op(2, &self.0, &o.0);
		(U256(r.0), r.1)
	}
	pub fn checked_add(self, o: U256) -> Option<U256> {
		match self.overflowing_add(o) {
			(r, false) => Some(r),
			_ => None,
		}
	}
	pub fn checked_sub(self, o: U256) -> Option<U256> {
		match self.overflowing_sub(o) {
			(r, false) => Some(r),
			_ => None,
		}
	}
	pub fn checked_mul(self, o: U256) -> Option<U256> {
		match self.overflowing_mul(o) {
			(r, false) => Some(r),
			_ => None,
		}
	}
	pub fn checked_div(self, o: U256) -> Option<U256> {
		if o.is_zero() {
			None
		} else {
			Some(U256(sx::u256_op(3, &self.0, &o.0).0))
		}
	}
	pub fn checked_rem(self, o: U256) -> Option<U256> {
		if o.is_zero() {
			None
		} else {
			Some(U256(sx::u256_op(4, &self.0, &o.0).0))
		}
	}
	pub fn saturating_add(self, o: U256) -> U256 {
		self.checked_add(o).unwrap_or(Self::MAX)
	}
	pub fn saturating_sub(self, o: U256) -> U256 {
		self.checked_sub(o).unwrap_or(Self::zero())
	}
	pub fn saturating_mul(self, o: U256) -> U256 {
		self.checked_mul(o).unwrap_or(Self::MAX)
	}
	pub fn div_mod(self, o: U256) -> (U256, U256) {
		(self / o, self % o)
	}
	pub fn pow(self, e: U256) -> U256 {
		self.checked_pow(e).expect("arithmetic operation overflow")
	}
	pub fn checked_pow(self, e: U256) -> Option<U256> {
		let mut r = U256::one();
		let mut n = e.as_u64();
		while n > 0 {
			r = r.checked_mul(self)?;
			n -= 1;
		}
		Some(r)
	}
	pub fn exp10(n: usize) -> U256 {
		U256::from(10u64).pow(U256::from(n))
	}
	pub fn bits(&self) -> usize {
		for i in (0..4).rev() {
			if self.0[i] != 0 {
				return 64 * i + 64 - self.0[i].leading_zeros() as usize;
			}
		}
		0
	}
	pub fn bit(&self, i: usize) -> bool {
		self.0[i / 64] >> (i % 64) & 1 == 1
	}
	pub fn from_big_endian(s: &[u8]) -> U256 {
		assert!(s.len() <= 32);
		let mut b = [0u8; 32];
		b[32 - s.len()..].copy_from_slice(s);
		let w = |i: usize| {
			let mut x = [0u8; 8];
			x.copy_from_slice(&b[i..i + 8]);
			u64::from_be_bytes(x)
		};
		U256([w(24), w(16), w(8), w(0)])
	}
	pub fn from_little_endian(s: &[u8]) -> U256 {
		assert!(s.len() <= 32);
		let mut b = [0u8; 32];
		b[..s.len()].copy_from_slice(s);
		let w = |i: usize| {
			let mut x = [0u8; 8];
			x.copy_from_slice(&b[i..i + 8]);
			u64::from_le_bytes(x)
		};
		U256([w(0), w(8), w(16), w(24)])
	}
	pub fn to_big_endian(&self, out: &mut [u8]) {
		assert!(out.len() == 32);
		for i in 0..4 {
			out[24 - 8 * i..32 - 8 * i].copy_from_slice(&self.0[i].to_be_bytes());
		}
	}
	pub fn to_little_endian(&self, out: &mut [u8]) {
		assert!(out.len() == 32);
		for i in 0..4 {
			out[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
		}
	}
	pub fn byte(&self, i: usize) -> u8 {
		(self.0[i / 8] >> (8 * (i % 8))) as u8
	}
	pub fn from_dec_str(s: &str) -> Result<U256, ()> {
		let mut r = U256::zero();
		for c in s.bytes() {
			if !c.is_ascii_digit() {
				return Err(());
			}
			r = r.checked_mul(U256::from(10u64)).ok_or(())?.checked_add(U256::from((c - b'0') as u64)).ok_or(())?;
		}
		Ok(r)
	}
	/// The unique s with s^2 <= x < (s+1)^2, introduced as a solver variable.
	pub fn integer_sqrt(&self) -> U256 {
		let r = sx::u128();
		let s = U256::from(r);
		sx::assume(s * s <= *self);
		if r < u128::MAX {
			let t = U256::from(r + 1);
			sx::assume(*self < t * t);
		}
		s
	}
}
impl PartialOrd for U256 {
	fn partial_cmp(&self, o: &U256) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
	fn lt(&self, o: &U256) -> bool {
		self.overflowing_sub(*o).1
	}
	fn ge(&self, o: &U256) -> bool {
		!self.overflowing_sub(*o).1
	}
	fn gt(&self, o: &U256) -> bool {
		o.overflowing_sub(*self).1
	}
	fn le(&self, o: &U256) -> bool {
		!o.overflowing_sub(*self).1
	}
}
impl Ord for U256 {
	fn cmp(&self, o: &U256) -> std::cmp::Ordering {
		if self.overflowing_sub(*o).1 {
			std::cmp::Ordering::Less
		} else if self == o {
			std::cmp::Ordering::Equal
		} else {
			std::cmp::Ordering::Greater
		}
	}
}
macro_rules! u256_from {
	($($t:ty),*) => {$(
		impl From<$t> for U256 { fn from(x: $t) -> U256 { let v = x as u128; U256([v as u64, (v >> 64) as u64, 0, 0]) } }
	)*};
}
u256_from!(u8, u16, u32, u64, u128, usize);
impl From<i32> for U256 {
	fn from(x: i32) -> U256 {
		if x < 0 {
			panic!("Unsigned integer can't be created from negative value")
		}
		U256([x as u64, 0, 0, 0])
	}
}
impl From<i64> for U256 {
	fn from(x: i64) -> U256 {
		if x < 0 {
			panic!("Unsigned integer can't be created from negative value")
		}
		U256([x as u64, 0, 0, 0])
	}
}
impl<'a> From<&'a [u8]> for U256 {
	fn from(x: &'a [u8]) -> U256 {
		U256::from_big_endian(x)
	}
}
impl From<[u8; 32]> for U256 {
	fn from(x: [u8; 32]) -> U256 {
		U256::from_big_endian(&x)
	}
}
impl From<U256> for [u8; 32] {
	fn from(x: U256) -> [u8; 32] {
		let mut b = [0u8; 32];
		x.to_big_endian(&mut b);
		b
	}
}
impl TryFrom<U256> for u128 {
	type Error = &'static str;
	fn try_from(x: U256) -> Result<u128, &'static str> {
		if (x.0[2] | x.0[3]) != 0 {
			Err("integer overflow when casting to u128")
		} else {
			Ok(x.low_u128())
		}
	}
}
macro_rules! u256_try {
	($($t:ty),*) => {$(
		impl TryFrom<U256> for $t {
			type Error = &'static str;
			fn try_from(x: U256) -> Result<$t, &'static str> {
				if (x.0[1] | x.0[2] | x.0[3]) != 0 || x.0[0] > <$t>::MAX as u64 { Err("integer overflow when casting") } else { Ok(x.0[0] as $t) }
			}
		}
	)*};
}
u256_try!(u8, u16, u32, u64, usize);
macro_rules! u256_op {
	($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
		impl<X: Into<U256>> $tr<X> for U256 {
			type Output = U256;
			fn $f(self, o: X) -> U256 {
				let g: fn(U256, U256) -> U256 = $e;
				g(self, o.into())
			}
		}
		impl<X: Into<U256>> $tra<X> for U256 {
			fn $fa(&mut self, o: X) {
				*self = (*self).$f(o)
			}
		}
	};
}
u256_op!(Add, add, AddAssign, add_assign, |a, b| a.checked_add(b).expect("arithmetic operation overflow"));
u256_op!(Sub, sub, SubAssign, sub_assign, |a, b| a.checked_sub(b).expect("arithmetic operation overflow"));
u256_op!(Mul, mul, MulAssign, mul_assign, |a, b| a.checked_mul(b).expect("arithmetic operation overflow"));
u256_op!(Div, div, DivAssign, div_assign, |a, b| a.checked_div(b).expect("division by zero"));
u256_op!(Rem, rem, RemAssign, rem_assign, |a, b| a.checked_rem(b).expect("division by zero"));
impl BitAnd for U256 {
	type Output = U256;
	fn bitand(self, o: U256) -> U256 {
		U256(core::array::from_fn(|i| self.0[i] & o.0[i]))
	}
}
impl BitOr for U256 {
	type Output = U256;
	fn bitor(self, o: U256) -> U256 {
		U256(core::array::from_fn(|i| self.0[i] | o.0[i]))
	}
}
impl BitXor for U256 {
	type Output = U256;
	fn bitxor(self, o: U256) -> U256 {
		U256(core::array::from_fn(|i| self.0[i] ^ o.0[i]))
	}
}
impl Not for U256 {
	type Output = U256;
	fn not(self) -> U256 {
		U256(core::array::from_fn(|i| !self.0[i]))
	}
}
impl<X: Into<U256>> Shl<X> for U256 {
	type Output = U256;
	fn shl(self, n: X) -> U256 {
		let n = n.into().as_usize();
		let (w, b) = (n / 64, n % 64);
		let mut r = [0u64; 4];
		for i in w..4 {
			r[i] = self.0[i - w] << b;
			if b > 0 && i > w {
				r[i] |= self.0[i - w - 1] >> (64 - b);
			}
		}
		U256(r)
	}
}
impl<X: Into<U256>> Shr<X> for U256 {
	type Output = U256;
	fn shr(self, n: X) -> U256 {
		let n = n.into().as_usize();
		let (w, b) = (n / 64, n % 64);
		let mut r = [0u64; 4];
		for i in 0..4usize.saturating_sub(w) {
			r[i] = self.0[i + w] >> b;
			if b > 0 && i + w + 1 < 4 {
				r[i] |= self.0[i + w + 1] << (64 - b);
			}
		}
		U256(r)
	}
}
impl Encode for U256 {
	fn encode_to<O: crate::cdc::Output + ?Sized>(&self, out: &mut O) {
		for w in self.0 {
			out.write(&w.to_le_bytes())
		}
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for U256 {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Ok(U256(<[u64; 4]>::decode(inp)?))
	}
}
impl fmt::Debug for U256 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str("U256")
	}
}
impl fmt::Display for U256 {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str("U256")
	}
}
impl std::str::FromStr for U256 {
	type Err = ();
	fn from_str(s: &str) -> Result<Self, ()> {
		let s = s.strip_prefix("0x").unwrap_or(s);
		let mut r = U256::zero();
		for c in s.bytes() {
			let d = (c as char).to_digit(16).ok_or(())?;
			r = r.checked_mul(U256::from(16u64)).ok_or(())?.checked_add(U256::from(d)).ok_or(())?;
		}
		Ok(r)
	}
}
impl serde::Serialize for U256 {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_u64(0)
	}
}
impl<'de> serde::Deserialize<'de> for U256 {
	fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
		Err(serde::de::Error::custom("stub"))
	}
}
impl crate::rt::traits::Zero for U256 {
	fn zero() -> Self {
		U256::zero()
	}
	fn is_zero(&self) -> bool {
		U256::is_zero(self)
	}
}
impl crate::rt::traits::One for U256 {
	fn one() -> Self {
		U256::one()
	}
}
