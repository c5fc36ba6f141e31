//! Native counterparts of the sx_* intrinsics: used when a counterexample (or a sampled path) is replayed
//! by running the very same machine code natively.
use crate::w256::W;
use std::io::Write;
static mut ND: Vec<W> = Vec::new();
static mut POS: usize = 0;
static mut OUT: Option<std::fs::File> = None;
static mut FAILED: bool = false;
static mut PANIC_OK: bool = false;

#[allow(static_mut_refs)]
fn nx() -> W {
	unsafe {
		let v = ND.get(POS).copied().unwrap_or(W::ZERO);
		POS += 1;
		v
	}
}
#[allow(static_mut_refs)]
fn out(s: String) {
	unsafe {
		if let Some(f) = OUT.as_mut() {
			let _ = f.write_all(s.as_bytes());
		}
	}
}
unsafe fn st(p: *const u8, n: usize) -> String {
	String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
pub extern "C" fn sx_u8() -> u8 {
	nx().lo as u8
}
#[no_mangle]
pub extern "C" fn sx_u16() -> u16 {
	nx().lo as u16
}
#[no_mangle]
pub extern "C" fn sx_u32() -> u32 {
	nx().lo as u32
}
#[no_mangle]
pub extern "C" fn sx_u64() -> u64 {
	nx().lo as u64
}
#[no_mangle]
pub extern "C" fn sx_u128() -> u128 {
	nx().lo
}
#[no_mangle]
pub extern "C" fn sx_bool() -> bool {
	nx().lo & 1 == 1
}
#[no_mangle]
pub unsafe extern "C" fn sx_bytes(p: *mut u8, n: usize) {
	let mut o = 0;
	while o < n {
		let k = (n - o).min(32);
		let v = nx();
		for i in 0..k {
			*p.add(o + i) = (v.shr(8 * i as u32).lo & 0xff) as u8;
		}
		o += k;
	}
}
#[no_mangle]
pub extern "C" fn sx_assume(b: bool) {
	if !b {
		out("CUT\n".into());
		unsafe { fin(0) }
	}
}
#[no_mangle]
pub extern "C" fn sx_cut() {
	out("CUT\n".into());
	unsafe { fin(0) }
}
#[no_mangle]
pub extern "C" fn sx_panic_ok(b: bool) {
	unsafe { PANIC_OK = b }
}
#[no_mangle]
pub unsafe extern "C" fn sx_check(b: bool, p: *const u8, n: usize) {
	out(format!("L {} {}\n", st(p, n), b as u8));
	if !b {
		FAILED = true;
		out(format!("FAIL {}\n", st(p, n)));
		fin(3)
	}
}
#[no_mangle]
pub unsafe extern "C" fn sx_reach(p: *const u8, n: usize) {
	out(format!("L {} 1\n", st(p, n)));
}
#[no_mangle]
pub unsafe extern "C" fn sx_trace(p: *const u8, n: usize, v: u64) {
	out(format!("L {} {}\n", st(p, n), v));
}
#[no_mangle]
pub extern "C" fn sx_pick(v: u64) -> u64 {
	v
}
#[no_mangle]
pub unsafe extern "C" fn sx_dbg(p: *const u8, n: usize, v: u64) {
	eprintln!("DBG {} {:x}", st(p, n), v);
}
#[no_mangle]
pub unsafe extern "C" fn sx_u256(op: u32, a: *const u64, b: *const u64, o: *mut u64) -> bool {
	let rd = |p: *const u64| {
		let f = |i: usize| unsafe { *p.add(i) as u128 };
		W { lo: f(0) | f(1) << 64, hi: f(2) | f(3) << 64 }
	};
	let (x, y) = (rd(a), rd(b));
	let (r, ov) = match op {
		0 => x.add_o(y),
		1 => x.sub_o(y),
		2 => x.mul_o(y),
		3 => (x.divrem(y).0, y.is_zero()),
		_ => (x.divrem(y).1, y.is_zero()),
	};
	*o = r.lo as u64;
	*o.add(1) = (r.lo >> 64) as u64;
	*o.add(2) = r.hi as u64;
	*o.add(3) = (r.hi >> 64) as u64;
	ov
}
extern "C" {
	fn dlopen(p: *const i8, f: i32) -> *mut u8;
	fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
	fn dlerror() -> *const i8;
	fn _exit(c: i32) -> !;
}
unsafe fn fin(c: i32) -> ! {
	_exit(c)
}
/// Runs in a child process. Exit 0: finished; 3: a check failed; signal/other: panic.
pub fn replay(so: &str, h: &str, vals: Vec<W>, outp: &str) -> ! {
	unsafe {
		ND = vals;
		OUT = Some(std::fs::File::create(outp).unwrap());
		let p = std::ffi::CString::new(so).unwrap();
		let l = dlopen(p.as_ptr(), 2);
		if l.is_null() {
			eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy());
			fin(9)
		}
		let n = std::ffi::CString::new(h).unwrap();
		let f = dlsym(l, n.as_ptr());
		if f.is_null() {
			fin(9)
		}
		let f: extern "C" fn() = std::mem::transmute(f);
		f();
		out("DONE\n".into());
		fin(0)
	}
}
