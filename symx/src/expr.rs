//! Hash-consed bit-vector expressions with local simplification, interval and known-zero-bit analysis.
use crate::w256::W;
use std::collections::HashMap;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
	Const,
	Var,
	Add,
	Sub,
	Mul,
	MulOv, // 1 bit: the product of a and b does not fit their width
	UDiv,
	URem,
	SDiv,
	SRem,
	And,
	Or,
	Xor,
	Shl,
	LShr,
	AShr,
	Eq,
	Ult,
	Slt,
	Ite,
	Concat,
	Extract, // b = hi, c = lo
	SExt,
}
#[derive(Clone, Copy, Debug)]
pub struct Node {
	pub op: Op,
	pub w: u32,
	pub a: E,
	pub b: E,
	pub c: E,
	pub lo: W,
	pub hi: W,
	pub kz: W,
}
#[derive(Hash, PartialEq, Eq)]
struct Key(Op, u32, u32, u32, u32, W);

pub struct Arena {
	pub n: Vec<Node>,
	map: HashMap<Key, E>,
	pub nvars: u32,
	ev_val: Vec<W>,
	ev_stamp: Vec<u32>,
	ev_epoch: u32,
	vars_memo: HashMap<E, std::rc::Rc<Vec<u32>>>,
}
static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
	unsafe {
		if ARENA.is_none() {
			ARENA = Some(Arena {
				n: vec![],
				map: HashMap::new(),
				nvars: 0,
				ev_val: vec![],
				ev_stamp: vec![],
				ev_epoch: 0,
				vars_memo: HashMap::new(),
			});
			for i in 0..256u64 {
				konst(8, W::from(i));
			}
		}
		ARENA.as_mut().unwrap()
	}
}
#[inline]
pub fn nd(e: E) -> Node {
	ar().n[e as usize]
}
pub fn width(e: E) -> u32 {
	nd(e).w
}
fn mk(op: Op, w: u32, a: E, b: E, c: E) -> E {
	mkk(op, w, a, b, c, W::ZERO)
}
fn mkk(op: Op, w: u32, a: E, b: E, c: E, k: W) -> E {
	let arena = ar();
	let key = Key(op, w, a, b, c, k);
	if let Some(e) = arena.map.get(&key) {
		return *e;
	}
	let m = W::mask(w);
	let (mut lo, mut hi) = match op {
		Op::Const => (k, k),
		_ => interval(op, w, a, b, c),
	};
	if lo > hi {
		lo = W::ZERO;
		hi = m;
	}
	let mut kz = match op {
		Op::Const => k.not().and(m),
		Op::Concat => nd(a).kz.shl(nd(b).w).or(nd(b).kz),
		Op::Extract => nd(a).kz.shr(c).and(m),
		Op::And => nd(a).kz.or(nd(b).kz),
		Op::Or | Op::Xor => nd(a).kz.and(nd(b).kz),
		Op::Ite => nd(b).kz.and(nd(c).kz),
		_ => W::ZERO,
	};
	kz = kz.or(m.and(W::mask(hi.bits()).not()));
	let maxv = m.and(kz.not());
	if maxv < hi {
		hi = maxv;
	}
	let e = arena.n.len() as E;
	arena.n.push(Node { op, w, a, b, c, lo, hi, kz });
	arena.map.insert(key, e);
	e
}
fn interval(op: Op, w: u32, a: E, b: E, c: E) -> (W, W) {
	let m = W::mask(w);
	let full = (W::ZERO, m);
	match op {
		Op::Var | Op::Const => full,
		Op::Add => {
			let (x, y) = (nd(a), nd(b));
			let (h, o) = x.hi.add_o(y.hi);
			if !o && h <= m {
				return (x.lo.add(y.lo), h);
			}
			let (l, o) = x.lo.add_o(y.lo);
			if w < 256 && l > m && !o {
				return (l.and(m), h.and(m));
			}
			if w == 256 && o {
				return (l, h);
			}
			full
		},
		Op::Sub => {
			let (x, y) = (nd(a), nd(b));
			if x.lo >= y.hi {
				(x.lo.sub(y.hi), x.hi.sub(y.lo))
			} else {
				full
			}
		},
		Op::Mul => {
			let (x, y) = (nd(a), nd(b));
			let (h, o) = x.hi.mul_o(y.hi);
			if !o && h <= m {
				(x.lo.mul(y.lo), h)
			} else {
				full
			}
		},
		Op::UDiv => {
			let (x, y) = (nd(a), nd(b));
			if y.lo.is_zero() {
				return full;
			}
			(x.lo.divrem(y.hi).0, x.hi.divrem(y.lo).0)
		},
		Op::URem => {
			let (x, y) = (nd(a), nd(b));
			if y.lo.is_zero() {
				return (W::ZERO, x.hi);
			}
			let h = y.hi.sub(W::ONE);
			(W::ZERO, if x.hi < h { x.hi } else { h })
		},
		Op::And => {
			let (x, y) = (nd(a), nd(b));
			(W::ZERO, if x.hi < y.hi { x.hi } else { y.hi })
		},
		Op::Or => {
			let (x, y) = (nd(a), nd(b));
			let bits = x.hi.bits().max(y.hi.bits());
			(if x.lo > y.lo { x.lo } else { y.lo }, W::mask(bits))
		},
		Op::Xor => {
			let (x, y) = (nd(a), nd(b));
			(W::ZERO, W::mask(x.hi.bits().max(y.hi.bits())))
		},
		Op::LShr => (W::ZERO, nd(a).hi),
		Op::Shl | Op::AShr | Op::SDiv | Op::SRem => full,
		Op::Eq | Op::Ult | Op::Slt | Op::MulOv => full,
		Op::Ite => {
			let (x, y) = (nd(b), nd(c));
			(if x.lo < y.lo { x.lo } else { y.lo }, if x.hi > y.hi { x.hi } else { y.hi })
		},
		Op::Concat => {
			let (x, y) = (nd(a), nd(b));
			(x.lo.shl(y.w).or(y.lo), x.hi.shl(y.w).or(y.hi))
		},
		Op::Extract => {
			let x = nd(a);
			// b = hi, c = lo
			if x.hi.bits() <= b + 1 {
				(x.lo.shr(c), x.hi.shr(c))
			} else {
				full
			}
		},
		Op::SExt => {
			let x = nd(a);
			if !x.hi.bit(x.w - 1) {
				(x.lo, x.hi)
			} else {
				full
			}
		},
	}
}
pub fn konst(w: u32, k: W) -> E {
	mkk(Op::Const, w, 0, 0, 0, k.and(W::mask(w)))
}
pub fn ku(w: u32, k: u64) -> E {
	konst(w, W::from(k))
}
pub fn tru() -> E {
	ku(1, 1)
}
pub fn fls() -> E {
	ku(1, 0)
}
pub fn byte_const(b: u8) -> E {
	b as E // preinterned first
}
pub fn var(w: u32) -> E {
	let a = ar();
	let id = a.nvars;
	a.nvars += 1;
	mk(Op::Var, w, id, 0, 0)
}
/// Deterministic variable for (index, width): the i-th nondet read along a path. Shared between paths.
pub fn var_ix(w: u32, id: u32) -> E {
	let a = ar();
	a.nvars = a.nvars.max(id + 1);
	mk(Op::Var, w, id, w, 0)
}
pub fn is_const(e: E) -> Option<W> {
	let n = nd(e);
	if n.op == Op::Const {
		Some(n.lo)
	} else {
		None
	}
}
fn kv(e: E) -> Option<W> {
	is_const(e)
}
pub fn add(a: E, b: E) -> E {
	let w = width(a);
	debug_assert_eq!(w, width(b));
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	match (kv(a), kv(b)) {
		(Some(x), Some(y)) => return konst(w, x.add(y)),
		(None, Some(y)) => {
			if y.is_zero() {
				return a;
			}
			let n = nd(a);
			if n.op == Op::Add {
				if let Some(z) = kv(n.b) {
					return add(n.a, konst(w, y.add(z)));
				}
			}
			if w == 1 {
				return xor(a, b);
			}
			if n.op == Op::Ite && kv(n.b).is_some() && kv(n.c).is_some() {
				return ite(n.a, add(n.b, b), add(n.c, b));
			}
			return mk(Op::Add, w, a, b, 0);
		},
		_ => {},
	}
	if w == 1 {
		return xor(a, b);
	}
	let (na, nb) = (nd(a), nd(b));
	// (x + c) + y => (x + y) + c
	if na.op == Op::Add && kv(na.b).is_some() {
		return add(add(na.a, b), na.b);
	}
	if nb.op == Op::Add && kv(nb.b).is_some() {
		return add(add(a, nb.a), nb.b);
	}
	// (x - y) + y => x
	if na.op == Op::Sub && na.b == b {
		return na.a;
	}
	if nb.op == Op::Sub && nb.b == a {
		return nb.a;
	}
	let (a, b) = if a > b { (b, a) } else { (a, b) };
	mk(Op::Add, w, a, b, 0)
}
pub fn neg(a: E) -> E {
	sub(konst(width(a), W::ZERO), a)
}
pub fn sub(a: E, b: E) -> E {
	let w = width(a);
	debug_assert_eq!(w, width(b));
	if a == b {
		return konst(w, W::ZERO);
	}
	if let Some(y) = kv(b) {
		return add(a, konst(w, y.neg()));
	}
	if w == 1 {
		return xor(a, b);
	}
	let (na, nb) = (nd(a), nd(b));
	if na.op == Op::Add {
		if na.b == b {
			return na.a;
		}
		if na.a == b {
			return na.b;
		}
		if kv(na.b).is_some() {
			return add(sub(na.a, b), na.b);
		}
	}
	if nb.op == Op::Add && kv(nb.b).is_some() {
		return add(sub(a, nb.a), konst(w, kv(nb.b).unwrap().neg()));
	}
	if nb.op == Op::Sub && nb.a == a {
		return nb.b;
	}
	mk(Op::Sub, w, a, b, 0)
}
pub fn mul(a: E, b: E) -> E {
	let w = width(a);
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	match (kv(a), kv(b)) {
		(Some(x), Some(y)) => return konst(w, x.mul(y)),
		(None, Some(y)) => {
			if y.is_zero() {
				return b;
			}
			if y == W::ONE {
				return a;
			}
			if y.and(y.sub(W::ONE)).is_zero() {
				return shl(a, konst(w, W::from((y.bits() - 1) as u64)));
			}
			return mk(Op::Mul, w, a, b, 0);
		},
		_ => {},
	}
	let (a, b) = if a > b { (b, a) } else { (a, b) };
	mk(Op::Mul, w, a, b, 0)
}
/// Overflow of the unsigned product.
pub fn mul_ov(a: E, b: E) -> E {
	let w = width(a);
	let (x, y) = (nd(a), nd(b));
	let m = W::mask(w);
	let big = |p: W, q: W| {
		let (h, o) = p.mul_o(q);
		o || h > m
	};
	if !big(x.hi, y.hi) {
		return fls();
	}
	if big(x.lo, y.lo) {
		return tru();
	}
	if let Some(k) = kv(b) {
		return ult(konst(w, m.divrem(k).0), a);
	}
	if let Some(k) = kv(a) {
		return ult(konst(w, m.divrem(k).0), b);
	}
	let (a, b) = if a > b { (b, a) } else { (a, b) };
	mk(Op::MulOv, 1, a, b, 0)
}
pub fn udiv(a: E, b: E) -> E {
	let w = width(a);
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return konst(w, x.divrem(y).0);
		}
		if y == W::ONE {
			return a;
		}
		if !y.is_zero() && y.and(y.sub(W::ONE)).is_zero() {
			return lshr(a, konst(w, W::from((y.bits() - 1) as u64)));
		}
	}
	let (na, nb) = (nd(a), nd(b));
	if na.hi < nb.lo {
		return konst(w, W::ZERO);
	}
	// narrow
	let bits = na.hi.bits().max(nb.hi.bits()).max(1);
	if bits < w && !nb.lo.is_zero() {
		return zext(udiv(extract(a, bits - 1, 0), extract(b, bits - 1, 0)), w);
	}
	mk(Op::UDiv, w, a, b, 0)
}
pub fn urem(a: E, b: E) -> E {
	let w = width(a);
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return konst(w, x.divrem(y).1);
		}
		if y == W::ONE {
			return konst(w, W::ZERO);
		}
		if !y.is_zero() && y.and(y.sub(W::ONE)).is_zero() {
			return and(a, konst(w, y.sub(W::ONE)));
		}
	}
	let (na, nb) = (nd(a), nd(b));
	if na.hi < nb.lo {
		return a;
	}
	let bits = na.hi.bits().max(nb.hi.bits()).max(1);
	if bits < w && !nb.lo.is_zero() {
		return zext(urem(extract(a, bits - 1, 0), extract(b, bits - 1, 0)), w);
	}
	mk(Op::URem, w, a, b, 0)
}
pub fn sdiv(a: E, b: E) -> E {
	let w = width(a);
	if !nd(a).hi.bit(w - 1) && !nd(b).hi.bit(w - 1) {
		return udiv(a, b);
	}
	if let (Some(x), Some(y)) = (kv(a), kv(b)) {
		return konst(w, sdr(x, y, w).0);
	}
	mk(Op::SDiv, w, a, b, 0)
}
pub fn srem(a: E, b: E) -> E {
	let w = width(a);
	if !nd(a).hi.bit(w - 1) && !nd(b).hi.bit(w - 1) {
		return urem(a, b);
	}
	if let (Some(x), Some(y)) = (kv(a), kv(b)) {
		return konst(w, sdr(x, y, w).1);
	}
	mk(Op::SRem, w, a, b, 0)
}
fn sdr(x: W, y: W, w: u32) -> (W, W) {
	let (nx, ny) = (x.bit(w - 1), y.bit(w - 1));
	let m = W::mask(w);
	let ax = if nx { x.neg().and(m) } else { x };
	let ay = if ny { y.neg().and(m) } else { y };
	let (q, r) = ax.divrem(ay);
	(if nx != ny { q.neg() } else { q }, if nx { r.neg() } else { r })
}
pub fn and(a: E, b: E) -> E {
	let w = width(a);
	debug_assert_eq!(w, width(b));
	if a == b {
		return a;
	}
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return konst(w, x.and(y));
		}
		if y.is_zero() {
			return b;
		}
		let m = W::mask(w);
		// bits of a possibly set
		let pos = nd(a).kz.not().and(m);
		if pos.and(y.not()).is_zero() {
			return a;
		}
		if pos.and(y).is_zero() {
			return konst(w, W::ZERO);
		}
		// split into runs
		let tz = trailing_zeros(y);
		let top = y.bits();
		if y == W::mask(top).and(W::mask(tz).not()) {
			// contiguous run [tz, top)
			let mid = extract(a, top - 1, tz);
			let lowp = if tz > 0 { concat(mid, konst(tz, W::ZERO)) } else { mid };
			return zext(lowp, w);
		}
		let n = nd(a);
		if n.op == Op::And {
			if let Some(z) = kv(n.b) {
				return and(n.a, konst(w, z.and(y)));
			}
		}
		if n.op == Op::Concat {
			let bw = width(n.b);
			return concat(
				and(n.a, konst(w - bw, y.shr(bw))),
				and(n.b, konst(bw, y)),
			);
		}
		return mk(Op::And, w, a, b, 0);
	}
	if w == 1 {
		if not(a) == b {
			return fls();
		}
		// absorption a & (a & b)
		let (na, nb) = (nd(a), nd(b));
		// adjacent slices both zero
		if na.op == Op::Eq && nb.op == Op::Eq && kv(na.b).map_or(false, |k| k.is_zero()) && kv(nb.b).map_or(false, |k| k.is_zero()) {
			let (x, y) = (nd(na.a), nd(nb.a));
			if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a {
				if x.c == y.b + 1 {
					let ex = extract(x.a, x.b, y.c);
					return eq(ex, konst(width(ex), W::ZERO));
				}
				if y.c == x.b + 1 {
					let ex = extract(x.a, y.b, x.c);
					return eq(ex, konst(width(ex), W::ZERO));
				}
			}
		}
		if na.op == Op::And && (na.a == b || na.b == b) {
			return a;
		}
		if nb.op == Op::And && (nb.a == a || nb.b == a) {
			return b;
		}
	}
	let pa = nd(a).kz.not();
	let pb = nd(b).kz.not();
	if pa.and(pb).and(W::mask(w)).is_zero() {
		return konst(w, W::ZERO);
	}
	let (a, b) = if a > b { (b, a) } else { (a, b) };
	mk(Op::And, w, a, b, 0)
}
fn trailing_zeros(x: W) -> u32 {
	if x.lo != 0 {
		x.lo.trailing_zeros()
	} else if x.hi != 0 {
		128 + x.hi.trailing_zeros()
	} else {
		256
	}
}
pub fn or(a: E, b: E) -> E {
	let w = width(a);
	debug_assert_eq!(w, width(b));
	if a == b {
		return a;
	}
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	let m = W::mask(w);
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return konst(w, x.or(y));
		}
		if y.is_zero() {
			return a;
		}
		if y == m {
			return b;
		}
	}
	if w == 1 {
		if not(a) == b {
			return tru();
		}
		let (a, b) = if a > b { (b, a) } else { (a, b) };
		return mk(Op::Or, w, a, b, 0);
	}
	// disjoint hi/lo parts => concat
	for (x, y) in [(a, b), (b, a)] {
		let px = nd(x).kz.not().and(m);
		let k = trailing_zeros(px);
		if k > 0 && k < w {
			let by = nd(y).kz.not().and(m).bits();
			if by <= k {
				return concat(extract(x, w - 1, k), extract(y, k - 1, 0));
			}
		}
	}
	// general disjoint with concat on both sides: split at a boundary
	let (na, nb) = (nd(a), nd(b));
	if na.op == Op::Concat && (nb.op == Op::Concat || nb.op == Op::Const) {
		let k = width(na.b);
		return concat(or(na.a, extract(b, w - 1, k)), or(na.b, extract(b, k - 1, 0)));
	}
	let (a, b) = if a > b && kv(b).is_none() { (b, a) } else { (a, b) };
	mk(Op::Or, w, a, b, 0)
}
pub fn xor(a: E, b: E) -> E {
	let w = width(a);
	debug_assert_eq!(w, width(b));
	if a == b {
		return konst(w, W::ZERO);
	}
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return konst(w, x.xor(y));
		}
		if y.is_zero() {
			return a;
		}
		let n = nd(a);
		if n.op == Op::Xor {
			if let Some(z) = kv(n.b) {
				return xor(n.a, konst(w, y.xor(z)));
			}
		}
		if n.op == Op::Concat {
			let bw = width(n.b);
			return concat(xor(n.a, konst(w - bw, y.shr(bw))), xor(n.b, konst(bw, y)));
		}
		if n.op == Op::Ite && kv(n.b).is_some() && kv(n.c).is_some() {
			return ite(n.a, xor(n.b, b), xor(n.c, b));
		}
		return mk(Op::Xor, w, a, b, 0);
	}
	if w == 1 {
		// pull constants out
		let (na, nb) = (nd(a), nd(b));
		if na.op == Op::Xor && kv(na.b).is_some() {
			return not(xor(na.a, b));
		}
		if nb.op == Op::Xor && kv(nb.b).is_some() {
			return not(xor(a, nb.a));
		}
	}
	let (a, b) = if a > b { (b, a) } else { (a, b) };
	mk(Op::Xor, w, a, b, 0)
}
pub fn not(a: E) -> E {
	let w = width(a);
	xor(a, konst(w, W::MAX))
}
pub fn shl(a: E, b: E) -> E {
	let w = width(a);
	if let Some(k) = kv(b) {
		if k.is_zero() {
			return a;
		}
		if k >= W::from(w as u64) {
			return konst(w, W::ZERO);
		}
		let k = k.lo as u32;
		return concat(extract(a, w - 1 - k, 0), konst(k, W::ZERO));
	}
	mk(Op::Shl, w, a, b, 0)
}
pub fn lshr(a: E, b: E) -> E {
	let w = width(a);
	if let Some(k) = kv(b) {
		if k.is_zero() {
			return a;
		}
		if k >= W::from(w as u64) {
			return konst(w, W::ZERO);
		}
		let k = k.lo as u32;
		return zext(extract(a, w - 1, k), w);
	}
	mk(Op::LShr, w, a, b, 0)
}
pub fn ashr(a: E, b: E) -> E {
	let w = width(a);
	if let Some(k) = kv(b) {
		if k.is_zero() {
			return a;
		}
		let k = if k >= W::from(w as u64) { w - 1 } else { k.lo as u32 };
		return sext(extract(a, w - 1, k), w);
	}
	if !nd(a).hi.bit(w - 1) {
		return lshr(a, b);
	}
	mk(Op::AShr, w, a, b, 0)
}
pub fn zext(a: E, w: u32) -> E {
	let aw = width(a);
	if aw == w {
		return a;
	}
	debug_assert!(aw < w);
	concat(konst(w - aw, W::ZERO), a)
}
pub fn sext(a: E, w: u32) -> E {
	let aw = width(a);
	if aw == w {
		return a;
	}
	if let Some(k) = kv(a) {
		return konst(w, k.sext(aw));
	}
	let n = nd(a);
	if !n.hi.bit(aw - 1) {
		return zext(a, w);
	}
	if n.op == Op::SExt {
		return sext(n.a, w);
	}
	if aw == 1 {
		return ite(a, konst(w, W::MAX), konst(w, W::ZERO));
	}
	if n.op == Op::Ite && kv(n.b).is_some() && kv(n.c).is_some() {
		return ite(n.a, sext(n.b, w), sext(n.c, w));
	}
	mk(Op::SExt, w, a, 0, 0)
}
pub fn trunc(a: E, w: u32) -> E {
	if width(a) == w {
		a
	} else {
		extract(a, w - 1, 0)
	}
}
pub fn concat(a: E, b: E) -> E {
	let (aw, bw) = (width(a), width(b));
	let w = aw + bw;
	assert!(w <= 256, "concat too wide");
	if let (Some(x), Some(y)) = (kv(a), kv(b)) {
		return konst(w, x.shl(bw).or(y));
	}
	let (na, nb) = (nd(a), nd(b));
	if na.op == Op::Concat {
		return concat(na.a, concat(na.b, b));
	}
	if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
		return ite(na.a, concat(na.b, nb.b), concat(na.c, nb.c));
	}
	// a with head of b
	let (hd, tl) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
	let nh = nd(hd);
	let merged = if let (Some(x), Some(y)) = (kv(a), kv(hd)) {
		Some(konst(aw + nh.w, x.shl(nh.w).or(y)))
	} else {
		// extract adjacency
		let (xa, ha, la) = if na.op == Op::Extract { (na.a, na.b, na.c) } else { (a, aw - 1, 0) };
		let (xh, hh, lh) = if nh.op == Op::Extract { (nh.a, nh.b, nh.c) } else { (hd, nh.w - 1, 0) };
		if kv(a).map_or(false, |k| k.is_zero()) && nh.op == Op::Extract && hh + aw < width(xh) && kv(extract(xh, hh + aw, hh + 1)).map_or(false, |k| k.is_zero()) {
			Some(extract(xh, hh + aw, lh))
		} else if xa == xh && la == hh + 1 {
			Some(extract(xa, ha, lh))
		} else {
			None
		}
	};
	if let Some(m) = merged {
		return match tl {
			Some(t) => concat(m, t),
			None => m,
		};
	}
	mk(Op::Concat, w, a, b, 0)
}
pub fn extract(a: E, h: u32, l: u32) -> E {
	let n = nd(a);
	debug_assert!(h >= l && h < n.w, "extract {} {} of {}", h, l, n.w);
	let w = h - l + 1;
	if w == n.w {
		return a;
	}
	if let Some(k) = kv(a) {
		return konst(w, k.shr(l));
	}
	// known zero
	if n.kz.shr(l).and(W::mask(w)) == W::mask(w) {
		return konst(w, W::ZERO);
	}
	match n.op {
		Op::Extract => extract(n.a, n.c + h, n.c + l),
		Op::Concat => {
			let bw = width(n.b);
			if h < bw {
				extract(n.b, h, l)
			} else if l >= bw {
				extract(n.a, h - bw, l - bw)
			} else {
				concat(extract(n.a, h - bw, 0), extract(n.b, bw - 1, l))
			}
		},
		Op::SExt => {
			let aw = width(n.a);
			if h < aw {
				extract(n.a, h, l)
			} else if l < aw {
				sext(extract(n.a, aw - 1, l), w)
			} else {
				sext(extract(n.a, aw - 1, aw - 1), w)
			}
		},
		Op::Ite if kv(n.b).is_some() || kv(n.c).is_some() => ite(n.a, extract(n.b, h, l), extract(n.c, h, l)),
		Op::And => and(extract(n.a, h, l), extract(n.b, h, l)),
		Op::Or => or(extract(n.a, h, l), extract(n.b, h, l)),
		Op::Xor => xor(extract(n.a, h, l), extract(n.b, h, l)),
		Op::Add if l == 0 && n.w <= 64 && n.hi.bits() > w => add(extract(n.a, h, 0), extract(n.b, h, 0)),
		Op::Sub if l == 0 && n.w <= 64 && n.hi.bits() > w => sub(extract(n.a, h, 0), extract(n.b, h, 0)),
		_ => mk(Op::Extract, w, a, h, l),
	}
}
pub fn eq(a: E, b: E) -> E {
	debug_assert_eq!(width(a), width(b));
	if a == b {
		return tru();
	}
	let (a, b) = if kv(a).is_some() { (b, a) } else { (a, b) };
	let (na, nb) = (nd(a), nd(b));
	if na.hi < nb.lo || nb.hi < na.lo {
		return fls();
	}
	let w = na.w;
	if let Some(y) = kv(b) {
		if let Some(x) = kv(a) {
			return if x == y { tru() } else { fls() };
		}
		if w == 1 {
			return if y.is_zero() { not(a) } else { a };
		}
		if !y.and(na.kz).is_zero() {
			return fls();
		}
		match na.op {
			Op::Concat => {
				let bw = width(na.b);
				return and(
					eq(na.a, konst(w - bw, y.shr(bw))),
					eq(na.b, konst(bw, y)),
				);
			},
			Op::Add => {
				if let Some(z) = kv(na.b) {
					return eq(na.a, konst(w, y.sub(z)));
				}
			},
			Op::Xor => {
				if let Some(z) = kv(na.b) {
					return eq(na.a, konst(w, y.xor(z)));
				}
			},
			Op::Sub if y.is_zero() => return eq(na.a, na.b),
			Op::Xor if y.is_zero() => return eq(na.a, na.b),
			Op::Or if y.is_zero() => {
				return and(eq(na.a, b), eq(na.b, b));
			},
			Op::Ite => {
				let (k1, k2) = (kv(na.b), kv(na.c));
				if k1.is_some() || k2.is_some() {
					return ite(na.a, eq(na.b, b), eq(na.c, b));
				}
			},
			Op::SExt => {
				let aw = width(na.a);
				let t = y.and(W::mask(aw));
				if t.sext(aw).and(W::mask(w)) != y {
					return fls();
				}
				return eq(na.a, konst(aw, t));
			},
			_ => {},
		}
	} else {
		if w == 1 {
			return not(xor(a, b));
		}
		if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
			return and(eq(na.a, nb.a), eq(na.b, nb.b));
		}
		// common zero top bits
		let bits = na.hi.bits().max(nb.hi.bits());
		if bits < w && bits > 0 && (na.op == Op::Concat || nb.op == Op::Concat) {
			return eq(extract(a, bits - 1, 0), extract(b, bits - 1, 0));
		}
		if na.op == Op::Concat {
			let bw = width(na.b);
			if nb.op == Op::Extract || nb.op == Op::Var {
				return and(eq(na.a, extract(b, w - 1, bw)), eq(na.b, extract(b, bw - 1, 0)));
			}
		}
		if nb.op == Op::Concat {
			let bw = width(nb.b);
			if na.op == Op::Extract || na.op == Op::Var {
				return and(eq(nb.a, extract(a, w - 1, bw)), eq(nb.b, extract(a, bw - 1, 0)));
			}
		}
		if na.op == Op::Add && (na.a == b || na.b == b) {
			let o = if na.a == b { na.b } else { na.a };
			return eq(o, konst(w, W::ZERO));
		}
		if nb.op == Op::Add && (nb.a == a || nb.b == a) {
			let o = if nb.a == a { nb.b } else { nb.a };
			return eq(o, konst(w, W::ZERO));
		}
		if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
			return eq(na.a, nb.a);
		}
	}
	let (a, b) = if kv(b).is_none() && a > b { (b, a) } else { (a, b) };
	mk(Op::Eq, 1, a, b, 0)
}
pub fn ne(a: E, b: E) -> E {
	not(eq(a, b))
}
pub fn ult(a: E, b: E) -> E {
	debug_assert_eq!(width(a), width(b));
	if a == b {
		return fls();
	}
	let (na, nb) = (nd(a), nd(b));
	if na.hi < nb.lo {
		return tru();
	}
	if na.lo >= nb.hi {
		return fls();
	}
	let w = na.w;
	if w == 1 {
		return and(not(a), b);
	}
	if let Some(y) = kv(b) {
		if y == W::ONE {
			return eq(a, konst(w, W::ZERO));
		}
		if y == na.hi {
			return ne(a, b);
		}
		if na.op == Op::Ite && (kv(na.b).is_some() || kv(na.c).is_some()) {
			return ite(na.a, ult(na.b, b), ult(na.c, b));
		}
	}
	if let Some(x) = kv(a) {
		if x.is_zero() {
			return ne(a, b);
		}
		if nb.op == Op::Ite && (kv(nb.b).is_some() || kv(nb.c).is_some()) {
			return ite(nb.a, ult(a, nb.b), ult(a, nb.c));
		}
	}
	let bits = na.hi.bits().max(nb.hi.bits());
	if bits < w && bits > 0 && (na.op == Op::Concat || nb.op == Op::Concat || (kv(a).is_some() || kv(b).is_some())) {
		return ult(extract(a, bits - 1, 0), extract(b, bits - 1, 0));
	}
	// same low part
	if na.op == Op::Concat && nb.op == Op::Concat && na.b == nb.b {
		return ult(na.a, nb.a);
	}
	if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a && width(na.b) == width(nb.b) {
		return ult(na.b, nb.b);
	}
	mk(Op::Ult, 1, a, b, 0)
}
pub fn ule(a: E, b: E) -> E {
	not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
	if a == b {
		return fls();
	}
	let w = width(a);
	let (na, nb) = (nd(a), nd(b));
	let (sa, sb) = (na.hi.bit(w - 1), nb.hi.bit(w - 1));
	if !sa && !sb {
		return ult(a, b);
	}
	if let (Some(x), Some(y)) = (kv(a), kv(b)) {
		return if x.sext(w).scmp(y.sext(w)) == std::cmp::Ordering::Less { tru() } else { fls() };
	}
	let (na1, nb1) = (na.lo.bit(w - 1), nb.lo.bit(w - 1));
	if na1 && nb1 {
		return ult(a, b);
	}
	if na1 && !sb {
		return tru();
	}
	if !sa && nb1 {
		return fls();
	}
	if na.op == Op::Ite && kv(b).is_some() && (kv(na.b).is_some() || kv(na.c).is_some()) {
		return ite(na.a, slt(na.b, b), slt(na.c, b));
	}
	if nb.op == Op::Ite && kv(a).is_some() && (kv(nb.b).is_some() || kv(nb.c).is_some()) {
		return ite(nb.a, slt(a, nb.b), slt(a, nb.c));
	}
	if kv(b).map_or(false, |y| y.is_zero()) {
		return extract(a, w - 1, w - 1);
	}
	mk(Op::Slt, 1, a, b, 0)
}
pub fn ite(c: E, a: E, b: E) -> E {
	debug_assert_eq!(width(a), width(b));
	if let Some(k) = kv(c) {
		return if k.is_zero() { b } else { a };
	}
	if a == b {
		return a;
	}
	let w = width(a);
	let nc = nd(c);
	if nc.op == Op::Xor && kv(nc.b).is_some() {
		return ite(nc.a, b, a);
	}
	if w == 1 {
		match (kv(a), kv(b)) {
			(Some(x), Some(_)) => return if x.is_zero() { not(c) } else { c },
			(Some(x), None) => return if x.is_zero() { and(not(c), b) } else { or(c, b) },
			(None, Some(y)) => return if y.is_zero() { and(c, a) } else { or(not(c), a) },
			_ => {},
		}
	}
	let na = nd(a);
	if na.op == Op::Ite && na.a == c {
		return ite(c, na.b, b);
	}
	let nb = nd(b);
	if nb.op == Op::Ite && nb.a == c {
		return ite(c, a, nb.c);
	}
	// ite(c, k, x) where c is (x == k)  => x
	if nc.op == Op::Eq && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) {
		return b;
	}
	mk(Op::Ite, w, c, a, b)
}

/// Evaluate under an assignment var-id -> value (missing: 0).
pub fn eval(e: E, m: &Model) -> W {
	let a = ar();
	a.ev_epoch += 1;
	let n = a.n.len();
	if a.ev_val.len() < n {
		a.ev_val.resize(n + 1024, W::ZERO);
		a.ev_stamp.resize(n + 1024, 0);
	}
	ev(e, m)
}
pub type Model = HashMap<u32, W>;
fn ev(e: E, m: &Model) -> W {
	let ar_ = ar();
	if ar_.ev_stamp[e as usize] == ar_.ev_epoch {
		return ar_.ev_val[e as usize];
	}
	let n = nd(e);
	let w = n.w;
	let b1 = |b: bool| if b { W::ONE } else { W::ZERO };
	let r = match n.op {
		Op::Const => n.lo,
		Op::Var => m.get(&n.a).copied().unwrap_or(W::ZERO).and(W::mask(w)),
		Op::Add => ev(n.a, m).add(ev(n.b, m)),
		Op::Sub => ev(n.a, m).sub(ev(n.b, m)),
		Op::Mul => ev(n.a, m).mul(ev(n.b, m)),
		Op::MulOv => {
			let (h, o) = ev(n.a, m).mul_o(ev(n.b, m));
			b1(o || h > W::mask(width(n.a)))
		},
		Op::UDiv => {
			let d = ev(n.b, m);
			if d.is_zero() { W::MAX } else { ev(n.a, m).divrem(d).0 }
		},
		Op::URem => {
			let d = ev(n.b, m);
			if d.is_zero() { ev(n.a, m) } else { ev(n.a, m).divrem(d).1 }
		},
		Op::SDiv => {
			let d = ev(n.b, m);
			if d.is_zero() { W::ZERO } else { sdr(ev(n.a, m), d, w).0 }
		},
		Op::SRem => {
			let d = ev(n.b, m);
			if d.is_zero() { ev(n.a, m) } else { sdr(ev(n.a, m), d, w).1 }
		},
		Op::And => ev(n.a, m).and(ev(n.b, m)),
		Op::Or => ev(n.a, m).or(ev(n.b, m)),
		Op::Xor => ev(n.a, m).xor(ev(n.b, m)),
		Op::Shl => {
			let k = ev(n.b, m);
			if k >= W::from(w as u64) { W::ZERO } else { ev(n.a, m).shl(k.lo as u32) }
		},
		Op::LShr => {
			let k = ev(n.b, m);
			if k >= W::from(w as u64) { W::ZERO } else { ev(n.a, m).shr(k.lo as u32) }
		},
		Op::AShr => {
			let k = ev(n.b, m);
			let k = if k >= W::from(w as u64) { w - 1 } else { k.lo as u32 };
			let x = ev(n.a, m).sext(w);
			let s = x.shr(k);
			if x.bit(255) && k > 0 { s.or(W::mask(256 - k).not()) } else { s }
		},
		Op::Eq => b1(ev(n.a, m) == ev(n.b, m)),
		Op::Ult => b1(ev(n.a, m) < ev(n.b, m)),
		Op::Slt => {
			let aw = width(n.a);
			b1(ev(n.a, m).sext(aw).scmp(ev(n.b, m).sext(aw)) == std::cmp::Ordering::Less)
		},
		Op::Ite => {
			if ev(n.a, m).is_zero() { ev(n.c, m) } else { ev(n.b, m) }
		},
		Op::Concat => ev(n.a, m).shl(width(n.b)).or(ev(n.b, m)),
		Op::Extract => ev(n.a, m).shr(n.c),
		Op::SExt => ev(n.a, m).sext(width(n.a)),
	}
	.and(W::mask(w));
	let ar_ = ar();
	ar_.ev_stamp[e as usize] = ar_.ev_epoch;
	ar_.ev_val[e as usize] = r;
	r
}
pub fn vars_of(e: E) -> std::rc::Rc<Vec<u32>> {
	if let Some(v) = ar().vars_memo.get(&e) {
		return v.clone();
	}
	let mut seen = std::collections::HashSet::new();
	let mut out = std::collections::BTreeSet::new();
	let mut st = vec![e];
	while let Some(x) = st.pop() {
		if !seen.insert(x) {
			continue;
		}
		let n = nd(x);
		for c in kids(&n) {
			st.push(c);
		}
		if n.op == Op::Var {
			out.insert(n.a);
		}
	}
	let r = std::rc::Rc::new(out.into_iter().collect::<Vec<_>>());
	ar().vars_memo.insert(e, r.clone());
	r
}
pub fn kids(n: &Node) -> Vec<E> {
	match n.op {
		Op::Const | Op::Var => vec![],
		Op::Extract | Op::SExt => vec![n.a],
		Op::Ite => vec![n.a, n.b, n.c],
		_ => vec![n.a, n.b],
	}
}
pub fn show(e: E) -> String {
	fn go(e: E, d: u32) -> String {
		let n = nd(e);
		if d > 8 {
			return "…".into();
		}
		match n.op {
			Op::Const => format!("{}:{}", n.lo.dec(), n.w),
			Op::Var => format!("v{}:{}", n.a, n.w),
			Op::Extract => format!("{}[{}:{}]", go(n.a, d + 1), n.b, n.c),
			_ => format!("({:?} {})", n.op, kids(&n).iter().map(|k| go(*k, d + 1)).collect::<Vec<_>>().join(" ")),
		}
	}
	go(e, 0)
}
