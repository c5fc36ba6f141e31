//! Interface to the symbolic executor (resolved by symx symbolically, or natively during replay).
extern "C" {
	fn sx_u8() -> u8;
	fn sx_u16() -> u16;
	fn sx_u32() -> u32;
	fn sx_u64() -> u64;
	fn sx_u128() -> u128;
	fn sx_bool() -> bool;
	fn sx_bytes(p: *mut u8, n: usize);
	fn sx_assume(b: bool);
	fn sx_check(b: bool, n: *const u8, l: usize);
	fn sx_reach(n: *const u8, l: usize);
	fn sx_trace(n: *const u8, l: usize, v: u64);
	fn sx_cut();
	fn sx_panic_ok(b: bool);
	fn sx_pick(v: u64) -> u64;
	fn sx_u256(op: u32, a: *const u64, b: *const u64, out: *mut u64) -> bool;
}
pub fn u8() -> u8 {
	unsafe { sx_u8() }
}
pub fn u16() -> u16 {
	unsafe { sx_u16() }
}
pub fn u32() -> u32 {
	unsafe { sx_u32() }
}
pub fn u64() -> u64 {
	unsafe { sx_u64() }
}
pub fn u128() -> u128 {
	unsafe { sx_u128() }
}
pub fn bool() -> bool {
	unsafe { sx_bool() }
}
pub fn bytes<const N: usize>() -> [u8; N] {
	let mut b = [0u8; N];
	unsafe { sx_bytes(b.as_mut_ptr(), N) };
	b
}
pub fn vec(n: usize) -> Vec<u8> {
	let mut b = vec![0u8; n];
	unsafe { sx_bytes(b.as_mut_ptr(), n) };
	b
}
pub fn assume(b: bool) {
	unsafe { sx_assume(b) }
}
pub fn check(b: bool, n: &'static str) {
	unsafe { sx_check(b, n.as_ptr(), n.len()) }
}
pub fn reach(n: &'static str) {
	unsafe { sx_reach(n.as_ptr(), n.len()) }
}
pub fn trace(n: &'static str, v: u64) {
	unsafe { sx_trace(n.as_ptr(), n.len(), v) }
}
pub fn cut() {
	unsafe { sx_cut() }
}
/// Panics of the code under test are acceptable from here on (they abort the block author, or are
/// recorded as known and out of the property).
pub fn panic_ok(b: bool) {
	unsafe { sx_panic_ok(b) }
}
/// Fork over the feasible values of `v`.
pub fn pick(v: u64) -> u64 {
	unsafe { sx_pick(v) }
}
pub fn below(n: u64) -> u64 {
	let v = u64();
	assume(v < n);
	v
}
/// Fork over 0..n and return the (concrete) choice.
pub fn choose(n: u64) -> u64 {
	pick(below(n))
}
pub fn u256_op(op: u32, a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
	let mut out = [0u64; 4];
	let f = unsafe { sx_u256(op, a.as_ptr(), b.as_ptr(), out.as_mut_ptr()) };
	(out, f)
}
