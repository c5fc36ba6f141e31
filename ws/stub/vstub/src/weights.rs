use crate::cdc::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Weight {
	ref_time: u64,
	proof_size: u64,
}
impl Weight {
	pub const fn mul(self, o: u64) -> Self {
		self.saturating_mul(o)
	}
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Weight { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Weight { ref_time: v, proof_size: v }
	}
	pub const fn from_ref_time(v: u64) -> Self {
		Weight { ref_time: v, proof_size: 0 }
	}
	pub const fn zero() -> Self {
		Weight { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, o: u64) -> Self {
		Weight { ref_time: self.ref_time.saturating_mul(o), proof_size: self.proof_size.saturating_mul(o) }
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn any_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time || self.proof_size <= o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub fn min(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
	pub fn set_ref_time(mut self, v: u64) -> Self {
		self.ref_time = v;
		self
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Weight { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Weight { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
}
impl Weight {
	pub const fn add_ref_time(self, s: u64) -> Self {
		Weight { ref_time: self.ref_time + s, proof_size: self.proof_size }
	}
	pub const fn sub_ref_time(self, s: u64) -> Self {
		Weight { ref_time: self.ref_time - s, proof_size: self.proof_size }
	}
	pub const fn div(self, s: u64) -> Self {
		Weight { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
}
impl core::ops::Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl core::ops::AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl core::ops::Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl core::ops::Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, o: u64) -> Self {
		Weight { ref_time: self.ref_time * o, proof_size: self.proof_size * o }
	}
}
impl crate::rt::traits::Zero for Weight {
	fn zero() -> Self {
		Weight::zero()
	}
	fn is_zero(&self) -> bool {
		Weight::is_zero(self)
	}
}
impl Encode for Weight {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		Compact(self.ref_time).encode_to(out);
		Compact(self.proof_size).encode_to(out)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for Weight {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Ok(Weight { ref_time: Compact::<u64>::decode(inp)?.0, proof_size: Compact::<u64>::decode(inp)?.0 })
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}
pub mod constants {
	pub struct RocksDbWeight;
	impl RocksDbWeight {
		pub fn get() -> super::RuntimeDbWeight {
			super::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
	impl crate::traits::Get<super::RuntimeDbWeight> for RocksDbWeight {
		fn get() -> super::RuntimeDbWeight {
			super::RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
