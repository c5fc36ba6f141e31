#![allow(non_snake_case)]
use frame_support::dispatch::{CallMetadata, GetCallMetadata};
use frame_support::traits::PalletInfoAccess;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, own_call, prefix, signed, sys};
use pallet_maintenance_mode::*;
use seed_pallet_common::*;
use seed_primitives::*;
use sp_core::H160;
use sp_runtime::traits::SignedExtension;
use vstub::system::RawOrigin;

sys!(T, RtCall);
own_call!(T, RtCall, Call<T>);
/// The name of the pallet and the function of the call under test.
static mut META: (&str, &str) = ("", "");
impl GetCallMetadata for RtCall {
	fn get_call_metadata(&self) -> CallMetadata {
		let (p, f) = unsafe { META };
		CallMetadata { function_name: f, pallet_name: p }
	}
}
macro_rules! info {
	($n:ident, $s:expr) => {
		pub struct $n;
		impl PalletInfoAccess for $n {
			fn name() -> &'static str {
				$s
			}
		}
	};
}
// names of the lengths of the symbolic names below, so that any of them may be hit
info!(Sudo, "Sudo");
info!(Time, "TiM");
info!(Online, "ImO");
info!(Ethy, "Ethy");
static mut LIMIT: u32 = 4;
konst! {
	Limit: u32 = unsafe { LIMIT };
}
impl Config for T {
	type RuntimeCall = RtCall;
	type RuntimeEvent = ();
	type StringLimit = Limit;
	type WeightInfo = ();
	type SudoPallet = Sudo;
	type TimestampPallet = Time;
	type ImOnlinePallet = Online;
	type EthyPallet = Ethy;
}
type Name = BoundedVec<u8, Limit>;
/// A name of 3 or 4 ASCII letters or underscores.
fn name(n: usize) -> Vec<u8> {
	let v = sx::vec(n);
	for c in v.iter() {
		sx::assume(((*c | 32) >= b'a') & ((*c | 32) <= b'z') | (*c == b'_'));
	}
	v
}
fn leak(v: &[u8]) -> &'static str {
	Box::leak(unsafe { String::from_utf8_unchecked(v.to_vec()) }.into_boxed_str())
}
fn bn(v: &[u8]) -> Name {
	Name::try_from(v.to_vec()).ok().unwrap()
}
fn low(v: &[u8]) -> Vec<u8> {
	v.iter().map(|c| if (*c >= b'A') & (*c <= b'Z') { *c + 32 } else { *c }).collect()
}
/// The pallets that nothing may stop.
fn vital(p: &[u8]) -> bool {
	let l = low(p);
	l == b"sudo" || l == b"tim" || l == b"imo" || l == b"ethy" || l == low(<Pallet<T> as PalletInfoAccess>::name().as_bytes())
}
fn origin(root: bool) -> vstub::system::Origin<Acc, RtCall> {
	if root {
		RawOrigin::Root.into()
	} else {
		signed!(acc(1))
	}
}
fn paused(p: &[u8], f: &[u8]) -> bool {
	unsafe { META = (leak(p), leak(f)) };
	<MaintenanceChecker<T> as MaintenanceCheck<T>>::call_paused(&RtCall(None, 0))
}
/// Whether a signed transaction of `who` with that call enters the chain.
fn admitted(who: &Acc, p: &[u8], f: &[u8]) -> bool {
	unsafe { META = (leak(p), leak(f)) };
	let m = MaintenanceChecker::<T>::new();
	let v = m.validate(who, &RtCall(None, 0), &Default::default(), 0).is_ok();
	let d = MaintenanceChecker::<T>::new().pre_dispatch(who, &RtCall(None, 0), &Default::default(), 0).is_ok();
	sx::check(v == d, "the pool and the block agree");
	v
}
/// Blocks of other kinds, which make no difference.
fn noise() {
	MaintenanceModeActive::<T>::put(sx::bool());
	if sx::bool() {
		BlockedAccounts::<T>::insert(any_acc(), true);
		BlockedEVMAddresses::<T>::insert(H160(sx::bytes()), true);
	}
}
/// Blocking a call or a pallet.
fn block(by_pallet: bool, np: usize, nf: usize) {
	let (p, q) = (name(np), name(4 - (np == 3) as usize));
	let (f, g) = (name(nf), name(nf));
	let (on, root) = (sx::bool(), sx::bool());
	noise();
	// what was blocked before
	if sx::bool() {
		let q = low(&q);
		sx::assume(!vital(&q));
		if sx::bool() {
			BlockedPallets::<T>::insert(bn(&q), true);
		} else {
			BlockedCalls::<T>::insert((bn(&q), bn(&low(&g))), true);
		}
	}
	let was = paused(&q, &g);
	let wasp = BlockedPallets::<T>::contains_key(bn(&low(&p)));
	let wasc = BlockedCalls::<T>::contains_key((bn(&low(&p)), bn(&low(&f))));
	let r = with_layer(|| if by_pallet { Pallet::<T>::block_pallet(origin(root), bn(&p), on) } else { Pallet::<T>::block_call(origin(root), bn(&p), bn(&f), on) });
	let hit = low(&p) == low(&q) && (by_pallet || low(&f) == low(&g));
	if r.is_ok() {
		sx::reach("set");
		sx::check(root, "only governance blocks");
		sx::check(!vital(&p), "vital pallets cannot be blocked");
		if on {
			sx::check(paused(&p, &f), "a blocked call is stopped");
			sx::check(paused(&q, &g) == (was || hit), "nothing else is stopped");
		} else {
			sx::check(paused(&p, &f) == if by_pallet { wasc } else { wasp }, "a lifted block is gone");
			sx::check(hit || paused(&q, &g) == was, "other blocks stay");
		}
	} else {
		sx::reach("refused");
		sx::check(!root || vital(&p), "governance can block anything else");
		sx::check(paused(&q, &g) == was, "a refusal changes nothing");
	}
	sx::check(!vital(&q) || !paused(&q, &g), "vital pallets are never stopped");
}
#[no_mangle]
pub extern "C" fn h_block_pallet() {
	block(true, 4, 3);
}
#[no_mangle]
pub extern "C" fn h_block_call() {
	block(false, 4, 3);
}
#[no_mangle]
pub extern "C" fn h_block_short() {
	block(sx::bool(), 3, 3);
}
/// Empty names, and names that are not text.
#[no_mangle]
pub extern "C" fn h_names() {
	let (p, f) = (sx::vec(sx::choose(3) as usize), sx::vec(sx::choose(3) as usize));
	let by_pallet = sx::bool();
	let r = with_layer(|| if by_pallet { Pallet::<T>::block_pallet(origin(true), bn(&p), true) } else { Pallet::<T>::block_call(origin(true), bn(&p), bn(&f), true) });
	if r.is_ok() {
		sx::reach("set");
		sx::check(!p.is_empty() && (by_pallet || !f.is_empty()), "names are not empty");
	} else {
		sx::reach("refused");
	}
}
/// The stored names are longer in the runtime than on chain: names are cut to the limit.
#[no_mangle]
pub extern "C" fn h_long() {
	let (p, f) = (name(4), name(4));
	sx::assume(!vital(&p));
	let g = [f.as_slice(), b"xyz"].concat();
	let r = Pallet::<T>::block_call(origin(true), bn(&p), bn(&f), true);
	sx::reach("set");
	sx::check(r.is_ok() && paused(&p, &g), "a call with a long name is stopped by its first letters");
}
/// The chain, an account or a contract is shut out.
#[no_mangle]
pub extern "C" fn h_shut() {
	let (p, f) = (name(4), name(3));
	let (on, root) = (sx::bool(), sx::bool());
	let mode = sx::bool();
	MaintenanceModeActive::<T>::put(mode);
	if sx::bool() {
		BlockedPallets::<T>::insert(bn(&name(4)), true);
		BlockedCalls::<T>::insert((bn(&p), bn(&f)), true);
	}
	let (who, other) = (any_acc(), any_acc());
	let (t, u) = (H160(sx::bytes()), H160(sx::bytes()));
	let (ob, ub) = (sx::bool(), sx::bool());
	if ob {
		BlockedAccounts::<T>::insert(other, true);
	}
	if ub {
		BlockedEVMAddresses::<T>::insert(u, true);
	}
	let what = sx::choose(3);
	let r = with_layer(|| match what {
		0 => Pallet::<T>::enable_maintenance_mode(origin(root), on),
		1 => Pallet::<T>::block_account(origin(root), who, on),
		_ => Pallet::<T>::block_evm_target(origin(root), t, on),
	});
	sx::check(r.is_ok() == root, "only governance shuts out");
	let m2 = if r.is_ok() && what == 0 { on } else { mode };
	let x = any_acc();
	let xb = if r.is_ok() && what == 1 && x == who { on } else { ob && x == other };
	let y = H160(sx::bytes());
	let yb = if r.is_ok() && what == 2 && y == t { on } else { ub && y == u };
	if r.is_ok() {
		sx::reach("set");
	} else {
		sx::reach("refused");
	}
	sx::check(admitted(&x, &p, &f) == (vital(&p) || (!m2 && !xb)), "maintenance and blocked accounts stop everything but vital calls, and nothing else stops");
	type M = MaintenanceChecker<T>;
	sx::check(<M as MaintenanceCheckEVM<T>>::validate_evm_call(&x, &y) == (!m2 && !xb && !yb), "the EVM obeys the same rules");
	sx::check(<M as MaintenanceCheckEVM<T>>::validate_evm_create(&x) == (!m2 && !xb), "contract creation obeys the same rules");
}
/// The maintenance pallet itself is vital, in any spelling.
#[no_mangle]
pub extern "C" fn h_self() {
	unsafe { LIMIT = 16 };
	let mut p = b"maintenancemode".to_vec();
	for c in p.iter_mut() {
		*c -= (sx::u8() & 1) * 32;
	}
	let by_pallet = sx::bool();
	let f = bn(b"enable");
	let r = if by_pallet { Pallet::<T>::block_pallet(origin(true), bn(&p), true) } else { Pallet::<T>::block_call(origin(true), bn(&p), f, true) };
	sx::reach("refused");
	sx::check(r.is_err() && !paused(&p, b"enable"), "maintenance cannot lock itself out");
	MaintenanceModeActive::<T>::put(true);
	sx::check(admitted(&acc(1), &p, b"enable"), "maintenance cannot lock itself out");
}
