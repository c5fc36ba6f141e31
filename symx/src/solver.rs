//! Z3 back end: QF_BV by bit-blasting and an integer encoding (mod 2^w semantics kept) for non-linear kernels.
use crate::expr::*;
use crate::w256::W;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, CStr, CString};
use std::os::raw::c_void;
use std::time::Instant;
type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
	fn Z3_mk_config() -> P;
	fn Z3_mk_context(c: P) -> P;
	fn Z3_del_context(c: P);
	fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
	fn Z3_mk_simple_solver(c: P) -> P;
	fn Z3_mk_solver(c: P) -> P;
	fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
	fn Z3_tactic_inc_ref(c: P, t: P);
	fn Z3_tactic_dec_ref(c: P, t: P);
	fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
	fn Z3_solver_push(c: P, s: P);
	fn Z3_solver_pop(c: P, s: P, n: c_uint);
	fn Z3_solver_inc_ref(c: P, s: P);
	fn Z3_solver_dec_ref(c: P, s: P);
	fn Z3_solver_assert(c: P, s: P, a: P);
	fn Z3_solver_check(c: P, s: P) -> c_int;
	fn Z3_solver_get_model(c: P, s: P) -> P;
	fn Z3_model_inc_ref(c: P, m: P);
	fn Z3_model_dec_ref(c: P, m: P);
	fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
	fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
	fn Z3_mk_params(c: P) -> P;
	fn Z3_params_inc_ref(c: P, p: P);
	fn Z3_params_dec_ref(c: P, p: P);
	fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
	fn Z3_solver_set_params(c: P, s: P, p: P);
	fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
	fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
	fn Z3_mk_int_sort(c: P) -> P;
	fn Z3_mk_real_sort(c: P) -> P;
	fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
	fn Z3_mk_const(c: P, s: P, sort: P) -> P;
	fn Z3_mk_true(c: P) -> P;
	fn Z3_mk_false(c: P) -> P;
	fn Z3_mk_eq(c: P, a: P, b: P) -> P;
	fn Z3_mk_not(c: P, a: P) -> P;
	fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_xor(c: P, a: P, b: P) -> P;
	fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
	fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
	fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
	fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
	fn Z3_mk_concat(c: P, a: P, b: P) -> P;
	fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
	fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
	fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
	fn Z3_mk_div(c: P, a: P, b: P) -> P;
	fn Z3_mk_mod(c: P, a: P, b: P) -> P;
	fn Z3_mk_lt(c: P, a: P, b: P) -> P;
	fn Z3_mk_le(c: P, a: P, b: P) -> P;
	fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
	fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}
extern "C" fn onerr(_c: P, code: c_int) {
	if std::env::var("SYMX_Z3ERR").is_ok() {
		eprintln!("z3 error code {}", code);
	}
}
pub enum Res {
	Sat(Model),
	Unsat,
	Unknown,
}
pub struct Solver {
	ctx: P,
	persist: P,
	bv: HashMap<E, P>,
	it: HashMap<E, P>,
	alt_it: [HashMap<E, P>; 2],
	alt_side: [HashMap<E, Vec<P>>; 2],
	real: bool,
	lin: bool,
	side: HashMap<E, Vec<P>>, // side constraints introduced for a node in int mode
	ivars: Vec<P>,
	uses: u32,
	pub n_queries: u64,
	pub n_int: u64,
	pub n_unknown: u64,
	pub t_solve: f64,
	cache: HashMap<Vec<E>, Option<Model>>,
	pub timeout_ms: u32,
	int_bias: i32,
	pub force: u8, // 0 auto, 1 bv, 2 int
}
fn vars(cons: &[E]) -> std::collections::BTreeSet<u32> {
	let mut seen = std::collections::HashSet::new();
	let mut st: Vec<E> = cons.to_vec();
	let mut out = std::collections::BTreeSet::new();
	while let Some(x) = st.pop() {
		if !seen.insert(x) {
			continue;
		}
		let n = nd(x);
		if n.op == Op::Var {
			out.insert(n.a as u32);
		}
		st.extend(kids(&n));
	}
	out
}
fn cs(s: &str) -> CString {
	CString::new(s).unwrap()
}
impl Solver {
	pub fn new() -> Solver {
		let mut s = Solver {
			ctx: std::ptr::null_mut(),
			persist: std::ptr::null_mut(),
			bv: HashMap::new(),
			it: HashMap::new(),
			alt_it: Default::default(),
			alt_side: Default::default(),
			real: false,
			lin: false,
			side: HashMap::new(),
			ivars: vec![],
			uses: 0,
			n_queries: 0,
			n_int: 0,
			n_unknown: 0,
			t_solve: 0.0,
			cache: HashMap::new(),
			timeout_ms: 20000,
			int_bias: 0,
			force: 0,
		};
		s.reset();
		s
	}
	fn reset(&mut self) {
		unsafe {
			if !self.ctx.is_null() {
				Z3_del_context(self.ctx);
			}
			let cfg = Z3_mk_config();
			self.ctx = Z3_mk_context(cfg);
			Z3_set_error_handler(self.ctx, onerr);
		}
		self.bv.clear();
		self.it.clear();
		self.alt_it = Default::default();
		self.alt_side = Default::default();
		self.side.clear();
		self.ivars.clear();
		self.uses = 0;
		self.persist = std::ptr::null_mut();
	}
	fn num(&self, w: u32, k: W) -> P {
		let s = cs(&k.dec());
		unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w)) }
	}
	fn isort(&self) -> P {
		unsafe { if self.real { Z3_mk_real_sort(self.ctx) } else { Z3_mk_int_sort(self.ctx) } }
	}
	fn inum(&self, k: W) -> P {
		let s = cs(&k.dec());
		unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.isort()) }
	}
	fn pow2(&self, w: u32) -> P {
		if w < 256 {
			self.inum(W::ONE.shl(w))
		} else {
			let s = cs("115792089237316195423570985008687907853269984665640564039457584007913129639936");
			unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.isort()) }
		}
	}
	fn cnst(&self, name: &str, sort: P) -> P {
		let s = cs(name);
		unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), sort) }
	}
	/// width-1 nodes are Bool terms, wider ones BitVec terms.
	fn tr_bv(&mut self, e: E) -> P {
		if let Some(p) = self.bv.get(&e) {
			return *p;
		}
		let n = nd(e);
		let c = self.ctx;
		let k: Vec<P> = kids(&n).into_iter().map(|k| self.tr_bv(k)).collect();
		let boolw = n.w == 1;
		unsafe {
			let asbv = |p: P, w: u32, s: &Solver| if w == 1 { Z3_mk_ite(c, p, s.num(1, W::ONE), s.num(1, W::ZERO)) } else { p };
			let r = match n.op {
				Op::Const => {
					if boolw {
						if n.lo.is_zero() { Z3_mk_false(c) } else { Z3_mk_true(c) }
					} else {
						self.num(n.w, n.lo)
					}
				},
				Op::Var => {
					let p = self.cnst(&format!("v{}_{}", n.a, n.w), Z3_mk_bv_sort(c, n.w));
					if boolw { Z3_mk_eq(c, p, self.num(1, W::ONE)) } else { p }
				},
				Op::Add if !boolw => Z3_mk_bvadd(c, k[0], k[1]),
				Op::Sub if !boolw => Z3_mk_bvsub(c, k[0], k[1]),
				Op::Mul if boolw => Z3_mk_and(c, 2, k.as_ptr()),
				Op::Mul => Z3_mk_bvmul(c, k[0], k[1]),
				Op::MulOv => Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, k[0], k[1], false)),
				Op::UDiv => Z3_mk_bvudiv(c, k[0], k[1]),
				Op::URem => Z3_mk_bvurem(c, k[0], k[1]),
				Op::SDiv => Z3_mk_bvsdiv(c, k[0], k[1]),
				Op::SRem => Z3_mk_bvsrem(c, k[0], k[1]),
				Op::And if boolw => Z3_mk_and(c, 2, k.as_ptr()),
				Op::And => Z3_mk_bvand(c, k[0], k[1]),
				Op::Or if boolw => Z3_mk_or(c, 2, k.as_ptr()),
				Op::Or => Z3_mk_bvor(c, k[0], k[1]),
				Op::Xor | Op::Add | Op::Sub if boolw => {
					if is_const(n.b) == Some(W::ONE) { Z3_mk_not(c, k[0]) } else { Z3_mk_xor(c, k[0], k[1]) }
				},
				Op::Xor => Z3_mk_bvxor(c, k[0], k[1]),
				Op::Shl => Z3_mk_bvshl(c, k[0], k[1]),
				Op::LShr => Z3_mk_bvlshr(c, k[0], k[1]),
				Op::AShr => Z3_mk_bvashr(c, k[0], k[1]),
				Op::Eq => Z3_mk_eq(c, k[0], k[1]),
				Op::Ult => Z3_mk_bvult(c, asbv(k[0], width(n.a), self), asbv(k[1], width(n.a), self)),
				Op::Slt => Z3_mk_bvslt(c, asbv(k[0], width(n.a), self), asbv(k[1], width(n.a), self)),
				Op::Ite => Z3_mk_ite(c, k[0], k[1], k[2]),
				Op::Concat => Z3_mk_concat(c, asbv(k[0], width(n.a), self), asbv(k[1], width(n.b), self)),
				Op::Extract => {
					let x = Z3_mk_extract(c, n.b, n.c, k[0]);
					if boolw { Z3_mk_eq(c, x, self.num(1, W::ONE)) } else { x }
				},
				Op::SExt => Z3_mk_sign_ext(c, n.w - width(n.a), asbv(k[0], width(n.a), self)),
				_ => panic!("tr_bv {:?}", n),
			};
			self.bv.insert(e, r);
			r
		}
	}
	fn i01(&self, p: P, w: u32) -> P {
		if w == 1 {
			unsafe { Z3_mk_ite(self.ctx, p, self.inum(W::ONE), self.inum(W::ZERO)) }
		} else {
			p
		}
	}
	fn fresh_range(&mut self, e: E, tag: &str, hi: W) -> P {
		unsafe {
			let p = self.cnst(&format!("{}_{}", tag, e), self.isort());
			let a = Z3_mk_le(self.ctx, self.inum(W::ZERO), p);
			let b = Z3_mk_le(self.ctx, p, self.inum(hi));
			self.side.entry(e).or_default().extend([a, b]);
			p
		}
	}
	/// Consequences of q = (x*y) / (x+s) when the sum does not wrap: q <= y, and q < y if s,y > 0.
	fn div_lemma(&mut self, n: &Node, q: P, d: P) -> Vec<P> {
		let (x, y) = (nd(n.a), nd(n.b));
		let mut out = vec![];
		if x.op != Op::Mul {
			return out;
		}
		let z = self.inum(W::ZERO);
		let one = self.inum(W::ONE);
		let mut cand: Vec<(E, Option<E>)> = vec![(n.b, None)];
		if y.op == Op::Add {
			let (h, o) = nd(y.a).hi.add_o(nd(y.b).hi);
			if !o && h <= W::mask(y.w) {
				cand.push((y.a, Some(y.b)));
				cand.push((y.b, Some(y.a)));
			}
		}
		for (p, s) in cand {
			for (f, o) in [(x.a, x.b), (x.b, x.a)] {
				if f != p {
					continue;
				}
				unsafe {
					let c = self.ctx;
					let t = Z3_mk_true(c);
					let ot = self.tr_int(o);
					out.push(Z3_mk_ite(c, Z3_mk_le(c, one, d), Z3_mk_le(c, q, ot), t));
					if let Some(s) = s {
						let st = self.tr_int(s);
						let g = Z3_mk_and(c, 2, [Z3_mk_le(c, one, st), Z3_mk_le(c, one, ot)].as_ptr());
						out.push(Z3_mk_ite(c, g, Z3_mk_le(c, Z3_mk_add(c, 2, [q, one].as_ptr()), ot), t));
					}
				}
			}
		}
		let _ = z;
		out
	}
	/// a < b over the integers; in the real relaxation a + 1 <= b
	fn ilt(&self, a: P, b: P) -> P {
		unsafe {
			if self.real {
				Z3_mk_le(self.ctx, Z3_mk_add(self.ctx, 2, [a, self.inum(W::ONE)].as_ptr()), b)
			} else {
				Z3_mk_lt(self.ctx, a, b)
			}
		}
	}
	/// p mod 2^w (the real relaxation keeps p = k 2^w + r with 0 <= r < 2^w)
	fn modp(&mut self, e: E, p: P, w: u32, m: W) -> P {
		unsafe {
			if !self.real {
				return Z3_mk_mod(self.ctx, p, self.pow2(w));
			}
			let r = self.fresh_range(e, "mr", m);
			let k = self.fresh_range(e, "mk", W::mask(256));
			let kb = Z3_mk_mul(self.ctx, 2, [k, self.pow2(w)].as_ptr());
			let t = Z3_mk_eq(self.ctx, p, Z3_mk_add(self.ctx, 2, [kb, r].as_ptr()));
			self.side.entry(e).or_default().push(t);
			r
		}
	}
	fn modp0(&mut self, e: E, p: P, w: u32, m: W) -> P {
		if self.real {
			return self.fresh_range(e, "mw", m);
		}
		unsafe { Z3_mk_mod(self.ctx, p, self.pow2(w)) }
	}
	fn divp(&mut self, e: E, p: P, sh: u32, hi: W) -> P {
		unsafe {
			let r = self.fresh_range(e, "dr", W::mask(sh));
			let k = self.fresh_range(e, "dk", hi);
			let kb = Z3_mk_mul(self.ctx, 2, [k, self.pow2(sh)].as_ptr());
			let t = Z3_mk_eq(self.ctx, p, Z3_mk_add(self.ctx, 2, [kb, r].as_ptr()));
			self.side.entry(e).or_default().push(t);
			k
		}
	}
	/// Integer encoding: every node of width w>1 is an Int in [0,2^w).
	fn tr_int(&mut self, e: E) -> P {
		if let Some(p) = self.it.get(&e) {
			return *p;
		}
		let n = nd(e);
		let c = self.ctx;
		let k: Vec<P> = kids(&n).into_iter().map(|k| self.tr_int(k)).collect();
		let boolw = n.w == 1;
		let m = W::mask(n.w);
		unsafe {
			let r = match n.op {
				Op::Const => {
					if boolw {
						if n.lo.is_zero() { Z3_mk_false(c) } else { Z3_mk_true(c) }
					} else {
						self.inum(n.lo)
					}
				},
				Op::Var => {
					if boolw {
						let p = self.fresh_range(e, &format!("b{}_{}", n.a, n.w), W::ONE);
						Z3_mk_eq(c, p, self.inum(W::ONE))
					} else {
						self.fresh_range(e, &format!("v{}_{}", n.a, n.w), m)
					}
				},
				Op::Add if !boolw => {
					let s = Z3_mk_add(c, 2, k.as_ptr());
					let (x, y) = (nd(n.a), nd(n.b));
					let (h, o) = x.hi.add_o(y.hi);
					if !o && h <= m {
						s
					} else if is_const(n.b).map_or(false, |kk| {
						// x + (2^w - d) with x >= d : x - d
						let d = kk.neg().and(m);
						x.lo >= d
					}) {
						let d = is_const(n.b).unwrap().neg().and(m);
						Z3_mk_sub(c, 2, [k[0], self.inum(d)].as_ptr())
					} else {
						Z3_mk_ite(
							c,
							Z3_mk_lt(c, s, self.pow2(n.w)),
							s,
							Z3_mk_sub(c, 2, [s, self.pow2(n.w)].as_ptr()),
						)
					}
				},
				Op::Sub if !boolw => {
					let s = Z3_mk_sub(c, 2, k.as_ptr());
					let (x, y) = (nd(n.a), nd(n.b));
					if x.lo >= y.hi {
						s
					} else {
						Z3_mk_ite(
							c,
							Z3_mk_le(c, self.inum(W::ZERO), s),
							s,
							Z3_mk_add(c, 2, [s, self.pow2(n.w)].as_ptr()),
						)
					}
				},
				Op::Mul if !boolw && self.lin && is_const(n.a).is_none() && is_const(n.b).is_none() => {
					let p = self.fresh_range(e, "nl", n.hi);
					// x*0 = 0, and a product that does not wrap is at least each (non-zero) factor
					let (x, y) = (k[0], k[1]);
					let z = self.inum(W::ZERO);
					let f = |a: P| Z3_mk_ite(c, Z3_mk_eq(c, a, z), Z3_mk_eq(c, p, z), Z3_mk_true(c));
					let l = [f(x), f(y)];
					self.side.entry(e).or_default().extend(l);
					let (h, o) = nd(n.a).hi.mul_o(nd(n.b).hi);
					if !o && h <= m {
						let g = |a: P, b: P| Z3_mk_ite(c, Z3_mk_eq(c, a, z), Z3_mk_true(c), Z3_mk_le(c, b, p));
						let l = [g(x, y), g(y, x)];
						self.side.entry(e).or_default().extend(l);
					}
					p
				},
				Op::MulOv if self.lin => {
					let p = self.fresh_range(e, "ov", W::ONE);
					Z3_mk_eq(c, p, self.inum(W::ONE))
				},
				Op::Mul if !boolw => {
					let s = Z3_mk_mul(c, 2, k.as_ptr());
					let (h, o) = nd(n.a).hi.mul_o(nd(n.b).hi);
					if !o && h <= m {
						s
					} else {
						let fits = Z3_mk_lt(c, s, self.pow2(n.w));
						let md = self.modp0(e, s, n.w, m);
						Z3_mk_ite(c, fits, s, md)
					}
				},
				Op::MulOv => {
					let s = Z3_mk_mul(c, 2, k.as_ptr());
					Z3_mk_le(c, self.pow2(width(n.a)), s)
				},
				Op::UDiv | Op::URem => {
					if !self.real && is_const(n.b).is_some() && !is_const(n.b).unwrap().is_zero() {
						if n.op == Op::UDiv { Z3_mk_div(c, k[0], k[1]) } else { Z3_mk_mod(c, k[0], k[1]) }
					} else {
						// shared q,r for the (a,b) pair
						let key = if n.op == Op::UDiv { "d" } else { "r" };
						let (tagq, tagr) = (format!("q{}_{}", n.a, n.b), format!("m{}_{}", n.a, n.b));
						let is = self.isort();
						let q = self.cnst(&tagq, is);
						let r = self.cnst(&tagr, is);
						let z = self.inum(W::ZERO);
						let lem = self.div_lemma(&n, q, k[1]);
						self.side.entry(e).or_default().extend(lem);
						if self.lin {
							let lo = [
								Z3_mk_le(c, z, q),
								Z3_mk_le(c, z, r),
								Z3_mk_le(c, q, self.inum(m)),
								Z3_mk_le(c, r, self.inum(m)),
								Z3_mk_ite(c, Z3_mk_lt(c, z, k[1]), Z3_mk_and(c, 3, [Z3_mk_le(c, q, k[0]), Z3_mk_lt(c, r, k[1]), Z3_mk_le(c, r, k[0])].as_ptr()), Z3_mk_true(c)),
							];
							self.side.entry(e).or_default().extend(lo);
							let r = if key == "d" { q } else { r };
							self.it.insert(e, r);
							return r;
						}
						let qb = Z3_mk_mul(c, 2, [q, k[1]].as_ptr());
						let def = Z3_mk_eq(c, k[0], Z3_mk_add(c, 2, [qb, r].as_ptr()));
						let cs_ = [
							Z3_mk_le(c, z, q),
							Z3_mk_le(c, q, self.inum(nd(n.a).hi)),
							Z3_mk_le(c, z, r),
							self.ilt(r, k[1]),
							def,
						];
						let nz = nd(n.b).lo > W::ZERO;
						let good = Z3_mk_and(c, 5, cs_.as_ptr());
						let all = if nz {
							good
						} else {
							let bz = Z3_mk_eq(c, k[1], z);
							let bad = [Z3_mk_eq(c, q, self.inum(m)), Z3_mk_eq(c, r, k[0])];
							Z3_mk_ite(c, bz, Z3_mk_and(c, 2, bad.as_ptr()), good)
						};
						self.side.entry(e).or_default().push(all);
						if key == "d" { q } else { r }
					}
				},
				Op::Mul | Op::And if boolw => Z3_mk_and(c, 2, k.as_ptr()),
				Op::Or if boolw => Z3_mk_or(c, 2, k.as_ptr()),
				Op::Xor | Op::Add | Op::Sub if boolw => {
					if is_const(n.b) == Some(W::ONE) {
						let x = nd(n.a);
						if x.op == Op::Ult {
							let w = width(x.a);
							let (p, q) = (self.tr_int(x.a), self.tr_int(x.b));
							Z3_mk_le(c, self.i01(q, w), self.i01(p, w))
						} else {
							Z3_mk_not(c, k[0])
						}
					} else {
						Z3_mk_xor(c, k[0], k[1])
					}
				},
				Op::Xor if is_const(n.b) == Some(m) => Z3_mk_sub(c, 2, [k[1], k[0]].as_ptr()),
				Op::Or | Op::Xor if nd(n.a).kz.not().and(nd(n.b).kz.not()).and(m).is_zero() => Z3_mk_add(c, 2, k.as_ptr()),
				Op::Eq if is_const(n.b).map_or(false, |z| z.is_zero()) && nd(n.a).op == Op::Extract && nd(n.a).c > 0 && nd(nd(n.a).a).hi.bits() <= nd(n.a).b + 1 => {
					let x = nd(n.a);
					let p = self.tr_int(x.a);
					self.ilt(p, self.pow2(x.c))
				},
				Op::Eq => Z3_mk_eq(c, k[0], k[1]),
				Op::Ult => {
					let w = width(n.a);
					self.ilt(self.i01(k[0], w), self.i01(k[1], w))
				},
				Op::Slt => {
					let w = width(n.a);
					let half = self.pow2(w - 1);
					let f = |p: P, s: &Solver| {
						let p = s.i01(p, w);
						Z3_mk_ite(c, Z3_mk_lt(c, p, half), p, Z3_mk_sub(c, 2, [p, s.pow2(w)].as_ptr()))
					};
					Z3_mk_lt(c, f(k[0], self), f(k[1], self))
				},
				Op::Ite => Z3_mk_ite(c, k[0], k[1], k[2]),
				Op::Concat => {
					let a = self.i01(k[0], width(n.a));
					let b = self.i01(k[1], width(n.b));
					if is_const(n.a).map_or(false, |x| x.is_zero()) {
						b
					} else {
						let bw = width(n.b);
						let s = Z3_mk_mul(c, 2, [a, self.pow2(bw)].as_ptr());
						if is_const(n.b).map_or(false, |x| x.is_zero()) { s } else { Z3_mk_add(c, 2, [s, b].as_ptr()) }
					}
				},
				Op::Extract => {
					let x = nd(n.a);
					let mut p = k[0];
					if n.c > 0 {
						p = if self.real { self.divp(e, p, n.c, x.hi.shr(n.c)) } else { Z3_mk_div(c, p, self.pow2(n.c)) };
					}
					if x.hi.bits() > n.b + 1 {
						p = self.modp(e, p, n.w, m);
					}
					if boolw { Z3_mk_eq(c, p, self.inum(W::ONE)) } else { p }
				},
				Op::SExt => {
					let aw = width(n.a);
					let a = self.i01(k[0], aw);
					let off = self.inum(m.sub(W::mask(aw)));
					Z3_mk_ite(c, Z3_mk_lt(c, a, self.pow2(aw - 1)), a, Z3_mk_add(c, 2, [a, off].as_ptr()))
				},
				_ => {
					// over-approximation: any value of the width (a model is checked afterwards)
					if boolw {
						let p = self.fresh_range(e, "u", W::ONE);
						Z3_mk_eq(c, p, self.inum(W::ONE))
					} else {
						let h = n.hi;
						self.fresh_range(e, "u", h)
					}
				},
			};
			self.it.insert(e, r);
			r
		}
	}
	pub fn is_hard(&self, cons: &[E]) -> bool {
		self.hard(cons)
	}
	fn hard(&self, cons: &[E]) -> bool {
		let mut seen = std::collections::HashSet::new();
		let mut st: Vec<E> = cons.to_vec();
		while let Some(x) = st.pop() {
			if !seen.insert(x) {
				continue;
			}
			let n = nd(x);
			match n.op {
				Op::Mul => {
					let kc = is_const(n.a).is_some() || is_const(n.b).is_some();
					if (!kc && n.w > 16) || n.w > 64 {
						return true;
					}
				},
				Op::MulOv => return true,
				Op::UDiv | Op::URem if n.w > 16 => return true,
				_ => {},
			}
			st.extend(kids(&n));
		}
		false
	}
	/// Number of wide additions of non-constants: chains of these are hard for bit-blasting but trivial for integers.
	fn adds(&self, cons: &[E]) -> usize {
		self.collect(cons).iter().filter(|x| { let n = nd(**x); matches!(n.op, Op::Add | Op::Sub) && n.w >= 64 }).count()
	}
	fn collect(&self, cons: &[E]) -> Vec<E> {
		let mut seen = std::collections::HashSet::new();
		let mut st: Vec<E> = cons.to_vec();
		let mut out = vec![];
		while let Some(x) = st.pop() {
			if !seen.insert(x) {
				continue;
			}
			out.push(x);
			st.extend(kids(&nd(x)));
		}
		out
	}
	pub fn check(&mut self, cons: &[E]) -> Res {
		let mut key: Vec<E> = cons.to_vec();
		key.sort();
		key.dedup();
		if let Some(r) = self.cache.get(&key) {
			return match r {
				Some(m) => Res::Sat(m.clone()),
				None => Res::Unsat,
			};
		}
		self.uses += 1;
		if self.uses > 20000 || self.bv.len() > 400000 {
			self.reset();
		}
		let t0 = Instant::now();
		self.n_queries += 1;
		let (r, how) = self.decide(cons, &key);
		let dt = t0.elapsed().as_secs_f64();
		self.t_solve += dt;
		if dt > std::env::var("SYMX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9) {
			eprintln!("slow query {:.1}s {} n={} -> {}", dt, how, key.len(), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
			for k in &key {
				eprintln!("   {}", show(*k));
			}
		}
		match &r {
			Res::Sat(m) => {
				self.cache.insert(key, Some(m.clone()));
			},
			Res::Unsat => {
				self.cache.insert(key, None);
			},
			Res::Unknown => self.n_unknown += 1,
		}
		r
	}
	fn sound(&self, r: Res, key: &[E]) -> Option<Res> {
		match r {
			Res::Unsat => Some(Res::Unsat),
			Res::Sat(m) if key.iter().all(|e| !eval(*e, &m).is_zero()) => Some(Res::Sat(m)),
			_ => None,
		}
	}
	fn decide(&mut self, cons: &[E], key: &Vec<E>) -> (Res, &'static str) {
		let hard = match self.force {
			1 => false,
			2 => true,
			_ => self.hard(key),
		};
		let t = self.timeout_ms;
		if hard && self.force == 0 {
			// abstraction first: the constraints without non-linear terms may already be contradictory
			let easy: Vec<E> = key.iter().copied().filter(|e| !self.hard(&[*e])).collect();
			if !easy.is_empty() && easy.len() < key.len() {
				let addy = self.adds(&easy) >= 2;
				let r = self.run(&easy, if addy { 2 } else { 0 }, 1000);
				if let Some(r) = self.sound(r, key) {
					return (r, "easy subset");
				}
			}
			// linear abstraction: products and quotients are opaque apart from a few lemmas
			let r = self.run(key, 4, t / 8);
			if let Some(r) = self.sound(r, key) {
				return (r, "linear abstraction");
			}
			// real relaxation of the newest constraint together with those over its variables only, then of all
			let last = *cons.last().unwrap();
			let lv = vars(&[last]);
			let sub: Vec<E> = key.iter().copied().filter(|k| *k == last || vars(&[*k]).is_subset(&lv)).collect();
			if sub.len() < key.len() {
				let r = self.run(&sub, 3, t / 8);
				if let Some(r) = self.sound(r, key) {
					return (r, "reals, subset");
				}
			}
			let r = self.run(key, 3, t / 4);
			if let Some(r) = self.sound(r, key) {
				return (r, "reals");
			}
		}
		let bv0 = (t / 8).max(1000);
		let addy = !hard && self.force == 0 && self.adds(key) >= 2;
		let plan: &[(u8, u32)] = if hard {
			&[(2, t), (1, t / 2)]
		} else if !addy {
			&[(0, bv0), (1, t), (2, t / 2)]
		} else if self.int_bias > 0 {
			&[(2, 400), (0, bv0), (2, bv0 * 2), (1, t), (2, t / 2)]
		} else {
			&[(0, 250), (2, bv0), (0, bv0), (1, t), (2, t / 2)]
		};
		for (mode, to) in plan {
			let r = self.run(key, *mode, *to);
			if !matches!(r, Res::Unknown) {
				if addy {
					let d = if *mode == 2 { 1 } else { -1 };
					self.int_bias = (self.int_bias + d).clamp(-4, 8);
				}
				return (r, ["bv", "bv fresh", "int"][*mode as usize]);
			}
		}
		(Res::Unknown, "all failed")
	}
	fn run(&mut self, cons: &[E], mode: u8, timeout: u32) -> Res {
		if mode >= 3 {
			let k = mode as usize - 3;
			std::mem::swap(&mut self.it, &mut self.alt_it[k]);
			std::mem::swap(&mut self.side, &mut self.alt_side[k]);
			self.real = mode == 3;
			self.lin = mode == 4;
			let r = self.run_(cons, mode, timeout);
			self.real = false;
			self.lin = false;
			std::mem::swap(&mut self.it, &mut self.alt_it[k]);
			std::mem::swap(&mut self.side, &mut self.alt_side[k]);
			return r;
		}
		self.run_(cons, mode, timeout)
	}
	fn run_(&mut self, cons: &[E], mode: u8, timeout: u32) -> Res {
		let int = mode >= 2;
		if int {
			self.n_int += 1;
		}
		let c = self.ctx;
		let terms: Vec<P> = cons.iter().map(|e| if int { self.tr_int(*e) } else { self.tr_bv(*e) }).collect();
		let nodes = self.collect(cons);
		unsafe {
			let s = match mode {
				2 | 4 => Z3_mk_solver(c),
				3 => {
					let n = cs("qfnra-nlsat");
					let t = Z3_mk_tactic(c, n.as_ptr());
					Z3_tactic_inc_ref(c, t);
					let s = Z3_mk_solver_from_tactic(c, t);
					Z3_tactic_dec_ref(c, t);
					s
				},
				1 => {
					let l = cs("QF_BV");
					Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
				},
				_ => {
					if self.persist.is_null() {
						self.persist = Z3_mk_simple_solver(c);
						Z3_solver_inc_ref(c, self.persist);
					}
					Z3_solver_push(c, self.persist);
					self.persist
				},
			};
			if mode > 0 {
				Z3_solver_inc_ref(c, s);
			}
			let p = Z3_mk_params(c);
			Z3_params_inc_ref(c, p);
			let k = cs("timeout");
			Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout);
			Z3_solver_set_params(c, s, p);
			Z3_params_dec_ref(c, p);
			for t in &terms {
				Z3_solver_assert(c, s, *t);
			}
			if int {
				for x in &nodes {
					if let Some(v) = self.side.get(x) {
						for t in v {
							Z3_solver_assert(c, s, *t);
						}
					}
				}
			}
			let r = Z3_solver_check(c, s);
			let res = match r {
				-1 => Res::Unsat,
				1 => {
					let m = Z3_solver_get_model(c, s);
					Z3_model_inc_ref(c, m);
					let mut model = Model::new();
					for x in &nodes {
						let n = nd(*x);
						if n.op != Op::Var {
							continue;
						}
						let name = if int {
							if n.w == 1 { format!("b{}_{}_{}", n.a, n.w, x) } else { format!("v{}_{}_{}", n.a, n.w, x) }
						} else {
							format!("v{}_{}", n.a, n.w)
						};
						let sort = if int { self.isort() } else { Z3_mk_bv_sort(c, n.w) };
						let v = self.cnst(&name, sort);
						let mut out: P = std::ptr::null_mut();
						if Z3_model_eval(c, m, v, true, &mut out) && !out.is_null() {
							let st = Z3_get_numeral_string(c, out);
							let st = CStr::from_ptr(st).to_str().unwrap_or("0");
							if st.bytes().all(|b| b.is_ascii_digit()) && !st.is_empty() {
								model.insert(n.a, W::parse_dec(st));
							}
						}
					}
					Z3_model_dec_ref(c, m);
					// always validate the model against the real bit-vector semantics
					if cons.iter().all(|e| !eval(*e, &model).is_zero()) {
						Res::Sat(model)
					} else {
						Res::Unknown
					}
				},
				_ => Res::Unknown,
			};
			if mode > 0 {
				Z3_solver_dec_ref(c, s);
			} else {
				Z3_solver_pop(c, s, 1);
			}
			res
		}
	}
}
