//! 256-bit unsigned constants.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct W {
	pub lo: u128,
	pub hi: u128,
}
impl PartialOrd for W {
	fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for W {
	fn cmp(&self, o: &W) -> std::cmp::Ordering {
		(self.hi, self.lo).cmp(&(o.hi, o.lo))
	}
}
impl From<u128> for W {
	fn from(x: u128) -> W {
		W { lo: x, hi: 0 }
	}
}
impl From<u64> for W {
	fn from(x: u64) -> W {
		W { lo: x as u128, hi: 0 }
	}
}
fn mul128(a: u128, b: u128) -> (u128, u128) {
	let m = u64::MAX as u128;
	let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
	let p00 = a0 * b0;
	let p01 = a0 * b1;
	let p10 = a1 * b0;
	let p11 = a1 * b1;
	let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
	let lo = (p00 & m) | (mid << 64);
	let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
	(lo, hi)
}
impl W {
	pub const ZERO: W = W { lo: 0, hi: 0 };
	pub const ONE: W = W { lo: 1, hi: 0 };
	pub const MAX: W = W { lo: u128::MAX, hi: u128::MAX };
	pub fn mask(w: u32) -> W {
		if w == 0 {
			W::ZERO
		} else if w < 128 {
			W { lo: (1u128 << w) - 1, hi: 0 }
		} else if w == 128 {
			W { lo: u128::MAX, hi: 0 }
		} else if w < 256 {
			W { lo: u128::MAX, hi: (1u128 << (w - 128)) - 1 }
		} else {
			W::MAX
		}
	}
	pub fn is_zero(&self) -> bool {
		self.lo == 0 && self.hi == 0
	}
	pub fn and(self, o: W) -> W {
		W { lo: self.lo & o.lo, hi: self.hi & o.hi }
	}
	pub fn or(self, o: W) -> W {
		W { lo: self.lo | o.lo, hi: self.hi | o.hi }
	}
	pub fn xor(self, o: W) -> W {
		W { lo: self.lo ^ o.lo, hi: self.hi ^ o.hi }
	}
	pub fn not(self) -> W {
		W { lo: !self.lo, hi: !self.hi }
	}
	pub fn shl(self, n: u32) -> W {
		if n >= 256 {
			W::ZERO
		} else if n >= 128 {
			W { lo: 0, hi: self.lo << (n - 128) }
		} else if n == 0 {
			self
		} else {
			W { lo: self.lo << n, hi: (self.hi << n) | (self.lo >> (128 - n)) }
		}
	}
	pub fn shr(self, n: u32) -> W {
		if n >= 256 {
			W::ZERO
		} else if n >= 128 {
			W { lo: self.hi >> (n - 128), hi: 0 }
		} else if n == 0 {
			self
		} else {
			W { lo: (self.lo >> n) | (self.hi << (128 - n)), hi: self.hi >> n }
		}
	}
	pub fn bit(self, n: u32) -> bool {
		self.shr(n).lo & 1 == 1
	}
	pub fn add_o(self, o: W) -> (W, bool) {
		let (lo, c) = self.lo.overflowing_add(o.lo);
		let (h, c1) = self.hi.overflowing_add(o.hi);
		let (h, c2) = h.overflowing_add(c as u128);
		(W { lo, hi: h }, c1 || c2)
	}
	pub fn sub_o(self, o: W) -> (W, bool) {
		let (lo, c) = self.lo.overflowing_sub(o.lo);
		let (h, c1) = self.hi.overflowing_sub(o.hi);
		let (h, c2) = h.overflowing_sub(c as u128);
		(W { lo, hi: h }, c1 || c2)
	}
	pub fn add(self, o: W) -> W {
		self.add_o(o).0
	}
	pub fn sub(self, o: W) -> W {
		self.sub_o(o).0
	}
	pub fn mul_o(self, o: W) -> (W, bool) {
		let (lo, h0) = mul128(self.lo, o.lo);
		let (x, xo) = mul128(self.hi, o.lo);
		let (y, yo) = mul128(self.lo, o.hi);
		let (h, c1) = h0.overflowing_add(x);
		let (h, c2) = h.overflowing_add(y);
		let ov = xo != 0 || yo != 0 || c1 || c2 || (self.hi != 0 && o.hi != 0);
		(W { lo, hi: h }, ov)
	}
	pub fn mul(self, o: W) -> W {
		self.mul_o(o).0
	}
	pub fn bits(self) -> u32 {
		if self.hi != 0 {
			256 - self.hi.leading_zeros()
		} else {
			128 - self.lo.leading_zeros()
		}
	}
	pub fn divrem(self, d: W) -> (W, W) {
		if d.is_zero() {
			return (W::MAX, self);
		}
		if self.hi == 0 && d.hi == 0 {
			return ((self.lo / d.lo).into(), (self.lo % d.lo).into());
		}
		let mut q = W::ZERO;
		let mut r = W::ZERO;
		for i in (0..self.bits()).rev() {
			let top = r.bit(255);
			r = r.shl(1);
			if self.bit(i) {
				r.lo |= 1;
			}
			if top || r >= d {
				r = r.sub(d);
				q = q.or(W::ONE.shl(i));
			}
		}
		(q, r)
	}
	pub fn dec(self) -> String {
		if self.hi == 0 {
			return self.lo.to_string();
		}
		let mut s = vec![];
		let mut x = self;
		while !x.is_zero() {
			let (q, r) = x.divrem(W::from(10u64));
			s.push(b'0' + r.lo as u8);
			x = q;
		}
		s.reverse();
		String::from_utf8(s).unwrap()
	}
	pub fn parse_dec(s: &str) -> W {
		let mut x = W::ZERO;
		for c in s.bytes() {
			assert!(c.is_ascii_digit(), "bad numeral {}", s);
			x = x.mul(W::from(10u64)).add(W::from((c - b'0') as u64));
		}
		x
	}
	/// sign-extend from width w to 256 bits
	pub fn sext(self, w: u32) -> W {
		if w < 256 && w > 0 && self.bit(w - 1) {
			self.or(W::mask(w).not())
		} else {
			self
		}
	}
	pub fn neg(self) -> W {
		W::ZERO.sub(self)
	}
	pub fn scmp(self, o: W) -> std::cmp::Ordering {
		// both sign-extended to 256
		let f = W { lo: 0, hi: 1u128 << 127 };
		self.xor(f).cmp(&o.xor(f))
	}
}
#[cfg(test)]
mod t {
	use super::*;
	#[test]
	fn t() {
		let a = W::parse_dec("340282366920938463463374607431768211457123456");
		assert_eq!(a.dec(), "340282366920938463463374607431768211457123456");
		let b = W::from(1234567u64);
		let (q, r) = a.divrem(b);
		assert_eq!(q.mul(b).add(r), a);
		assert!(W::MAX.mul_o(W::from(2u64)).1);
		assert_eq!(W::MAX.divrem(W::MAX), (W::ONE, W::ZERO));
	}
}
