//! Native stand-ins for the symbolic intrinsics (a demo runs concrete values only).
#[path = "w256.rs"]
mod w256;
use w256::W;
macro_rules! one { ($($n:ident $t:ty = $e:expr),*) => { $( #[no_mangle] pub extern "C" fn $n() -> $t { $e } )* } }
one!(sx_u8 u8 = 1, sx_u16 u16 = 1, sx_u32 u32 = 1, sx_u64 u64 = 1, sx_u128 u128 = 1, sx_bool bool = true, sx_cut () = panic!("cut in a demo"));
#[no_mangle]
pub unsafe extern "C" fn sx_bytes(p: *mut u8, n: usize) {
	// distinct from call to call (what is left open in the model, e.g. a hash, is injective there)
	static mut N: u8 = 0;
	N += 1;
	core::ptr::write_bytes(p, N, n)
}
#[no_mangle]
pub extern "C" fn sx_assume(b: bool) { assert!(b) }
#[no_mangle]
pub extern "C" fn sx_panic_ok(_: bool) {}
#[no_mangle]
pub extern "C" fn sx_check(b: bool, _: *const u8, _: usize) { assert!(b) }
#[no_mangle]
pub extern "C" fn sx_reach(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn sx_trace(_: *const u8, _: usize, _: u64) {}
#[no_mangle]
pub extern "C" fn sx_dbg(_: *const u8, _: usize, _: u64) {}
#[no_mangle]
pub extern "C" fn sx_pick(v: u64) -> u64 { v }
#[no_mangle]
pub unsafe extern "C" fn sx_u256(op: u32, a: *const u64, b: *const u64, o: *mut u64) -> bool {
	let rd = |p: *const u64| {
		let f = |i: usize| unsafe { *p.add(i) as u128 };
		W { lo: f(0) | f(1) << 64, hi: f(2) | f(3) << 64 }
	};
	let (x, y) = (rd(a), rd(b));
	let (r, ov) = match op {
		0 => x.add_o(y),
		1 => x.sub_o(y),
		2 => x.mul_o(y),
		3 => (x.divrem(y).0, y.is_zero()),
		_ => (x.divrem(y).1, y.is_zero()),
	};
	*o = r.lo as u64;
	*o.add(1) = (r.lo >> 64) as u64;
	*o.add(2) = r.hi as u64;
	*o.add(3) = (r.hi >> 64) as u64;
	ov
}
