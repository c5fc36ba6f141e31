#![allow(non_snake_case)]
use frame_support::traits::{Get, InstanceFilter};
use hrt::*;
use hrt::{konst, own_call, prefix, signed, sys};
use pallet_futurepass::*;
use seed_pallet_common::*;
use seed_primitives::*;
use sp_core::H160;
use sp_runtime::{DispatchError, DispatchResult};
use vstub::system::RawOrigin;

sys!(T, RtCall);
own_call!(T, RtCall, Call<T>);
prefix!(PDel);
prefix!(PFail);
prefix!(PBlack);
prefix!(PFund);
type Table = Vec<(Acc, u8)>;
type Del = StorageMap<PDel, (), Acc, Table, ValueQuery>;
type Fail = StorageValue<PFail, bool, ValueQuery>;
type Black = StorageValue<PBlack, u8, ValueQuery>;
/// Who paid for an added delegate or got a refund.
type Fund = StorageValue<PFund, Vec<(Acc, Acc)>, ValueQuery>;
const OWNER: u8 = 255;
const ANY: u8 = 1;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Kind(u8);
impl Default for Kind {
	fn default() -> Self {
		Kind(ANY)
	}
}
impl From<Kind> for u8 {
	fn from(k: Kind) -> u8 {
		k.0
	}
}
impl InstanceFilter<RtCall> for Kind {
	fn filter(&self, _c: &RtCall) -> bool {
		true
	}
}
/// The proxy pallet: one list of (delegate, kind) per account, no duplicates, nobody its own delegate.
pub struct Proxies;
impl ProxyProvider<T> for Proxies {
	fn exists(f: &Acc, d: &Acc, k: Option<Kind>) -> bool {
		Del::get(f).iter().any(|(x, y)| x == d && k.map_or(true, |k| k.0 == *y))
	}
	fn owner(f: &Acc) -> Option<Acc> {
		Del::get(f).into_iter().find(|(_, k)| *k == OWNER).map(|(a, _)| a)
	}
	fn delegates(f: &Acc) -> Vec<(Acc, Kind)> {
		Del::get(f).into_iter().map(|(a, k)| (a, Kind(k))).collect()
	}
	fn add_delegate(funder: &Acc, f: &Acc, d: &Acc, k: &u8) -> DispatchResult {
		if Fail::get() || f == d {
			return Err(DispatchError::Other("proxy"));
		}
		let mut v = Del::get(f);
		if v.len() >= 4 || v.contains(&(*d, *k)) {
			return Err(DispatchError::Other("proxy"));
		}
		v.push((*d, *k));
		Del::insert(f, v);
		Fund::mutate(|x| x.push((*funder, *f)));
		Ok(())
	}
	fn remove_delegate(_r: &Acc, f: &Acc, d: &Acc) -> DispatchResult {
		let mut v = Del::get(f);
		let i = v.iter().position(|(x, _)| x == d).ok_or(DispatchError::Other("not found"))?;
		v.remove(i);
		Del::insert(f, v);
		Ok(())
	}
	fn remove_account(_r: &Acc, f: &Acc) -> DispatchResult {
		Del::remove(f);
		Ok(())
	}
	fn proxy_call(o: vstub::system::Origin<Acc, RtCall>, f: Acc, c: RtCall) -> DispatchResult {
		let w = match o.raw {
			RawOrigin::Signed(a) => a,
			_ => return Err(DispatchError::BadOrigin),
		};
		if !Self::exists(&f, &w, None) {
			return Err(DispatchError::Other("not proxy"));
		}
		let n = c.1;
		Dispatched::mutate(|v| v.push((Some(f), n)));
		Ok(())
	}
}
pub struct Blacklist;
impl ExtrinsicChecker for Blacklist {
	type Call = RtCall;
	type Extra = ();
	type Result = bool;
	fn check_extrinsic(c: &RtCall, _e: &()) -> bool {
		c.1 == Black::get()
	}
}
impl Config for T {
	type RuntimeEvent = ();
	type Proxy = Proxies;
	type RuntimeCall = RtCall;
	type BlacklistedCallValidator = Blacklist;
	type ApproveOrigin = frame_system::EnsureRoot<Acc>;
	type ProxyType = Kind;
	type WeightInfo = ();
}
/// The futurepass with number n.
fn fp(n: u128) -> Acc {
	let mut b = [0xffu8; 20];
	b[4..].copy_from_slice(&n.to_be_bytes());
	Acc::from(H160(b))
}
/// Two futurepasses in a consistent state: F (owner 0, maybe delegate 1, and 2), G (owner 3 or nobody).
/// Accounts 4 and 5 hold nothing.
fn setup() -> (Acc, Acc) {
	let next = sx::u128();
	sx::assume(next >= 3 && next < u128::MAX);
	NextFuturepassId::<T>::put(next);
	let (f, g) = (fp(1), fp(2));
	Holders::<T>::insert(acc(0), f);
	let mut v = vec![(acc(0), OWNER)];
	if sx::bool() {
		v.push((acc(1), ANY));
		if sx::bool() {
			v.push((acc(2), ANY));
		}
	}
	if sx::bool() {
		v.reverse();
	}
	Del::insert(f, v);
	if sx::bool() {
		Holders::<T>::insert(acc(3), g);
		Del::insert(g, vec![(acc(3), OWNER), (acc(1), ANY)]);
	}
	(f, g)
}
fn some(f: &Acc, g: &Acc) -> Acc {
	match sx::choose(8) {
		6 => *f,
		7 => *g,
		n => acc(n as u8),
	}
}
type Snap = (Vec<Option<Acc>>, Table, Table);
fn snap(f: &Acc, g: &Acc) -> Snap {
	((0..6).map(|i| Holders::<T>::get(acc(i))).collect(), Del::get(f), Del::get(g))
}
/// The holder of a futurepass and its owner delegate are the same single account.
fn consistent(f: &Acc, g: &Acc) {
	for p in [f, g] {
		let hs: Vec<Acc> = (0..6).map(acc).chain([*f, *g]).filter(|a| Holders::<T>::get(a) == Some(*p)).collect();
		let os: Vec<Acc> = Del::get(p).iter().filter(|(_, k)| *k == OWNER).map(|(a, _)| *a).collect();
		sx::check(hs.len() <= 1, "a futurepass has one holder");
		sx::check(hs == os, "the holder is the owner among the delegates");
	}
}
fn is_del(f: &Acc, a: &Acc) -> bool {
	Del::get(f).iter().any(|(x, _)| x == a)
}
/// Creating a futurepass.
#[no_mangle]
pub extern "C" fn h_create() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	let n = NextFuturepassId::<T>::get();
	let caller = pick_acc(5);
	let who = if sx::bool() { some(&f, &g) } else { any_acc() };
	let had = Holders::<T>::get(who);
	let s = snap(&f, &g);
	let root = sx::bool();
	let o = if root { RawOrigin::Root.into() } else { signed!(caller) };
	let r = with_layer(|| Pallet::<T>::create(o, who));
	if r.is_ok() {
		sx::reach("created");
		sx::check(had.is_none() && !root, "an account holds one futurepass");
		let p = fp(n);
		sx::check(Holders::<T>::get(who) == Some(p), "the account holds the new futurepass");
		sx::check(Del::get(p) == vec![(who, OWNER)], "the holder is its only delegate, as owner");
		sx::check(NextFuturepassId::<T>::get() == n + 1, "every futurepass has its own number");
		sx::check(p != f && p != g, "a new futurepass has a new address");
		sx::check(Fund::get() == vec![(caller, p)], "the caller pays");
		sx::check(Del::get(f) == s.1 && Del::get(g) == s.2, "other futurepasses are untouched");
	} else {
		sx::reach("refused");
		sx::check(Fail::get() || root || had.is_some() || who == fp(n), "anybody without one gets a futurepass");
		sx::check(Holders::<T>::get(who) == had && NextFuturepassId::<T>::get() == n, "a refusal changes nothing");
	}
	let q = sx::choose(6) as u8;
	sx::check(acc(q) == who || Holders::<T>::get(acc(q)) == s.0[q as usize], "other holders keep theirs");
	if !(had.is_none() && r.is_ok()) {
		sx::check(snap(&f, &g) == s, "a refusal changes nothing");
	}
}
fn msg(f: &Acc, d: &Acc, k: u8, deadline: u32) -> [u8; 32] {
	let mut m = Vec::new();
	m.extend_from_slice(&H160::from(*f).0);
	m.extend_from_slice(&H160::from(*d).0);
	m.push(k);
	m.extend_from_slice(&deadline.to_be_bytes());
	let h = vstub::io::hashing::keccak_256(&m);
	let mut t = b"\x19Ethereum Signed Message:\n64".to_vec();
	t.extend_from_slice(hex(&h).as_slice());
	vstub::io::hashing::keccak_256(&t)
}
fn hex(b: &[u8]) -> Vec<u8> {
	const D: &[u8; 16] = b"0123456789abcdef";
	b.iter().flat_map(|x| [D[(x >> 4) as usize], D[(x & 15) as usize]]).collect()
}
/// Registering a delegate.
#[no_mangle]
pub extern "C" fn h_register() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	let now = sx::u32();
	set_block(now);
	let caller = some(&f, &g);
	let p = if sx::bool() { f } else { g };
	let d = some(&f, &g);
	let k = sx::u8();
	let deadline = sx::u32();
	let sig = sx::bytes::<65>();
	let owner = Holders::<T>::get(caller) == Some(p);
	let was = is_del(&p, &d);
	let s = snap(&f, &g);
	let r = with_layer(|| Pallet::<T>::register_delegate_with_signature(signed!(caller), p, d, Kind(k), deadline, sig));
	if r.is_ok() {
		sx::reach("registered");
		sx::check(owner || caller == p, "only the owner or the futurepass itself adds a delegate");
		sx::check(!was && d != p, "an account is added once");
		sx::check(k == ANY, "only the ordinary kind of delegate is added");
		sx::check(deadline >= now, "an expired consent does not count");
		let signer = vstub::io::crypto::secp256k1_ecdsa_recover(&sig, &msg(&p, &d, k, deadline));
		let signer = match signer {
			Ok(x) => x,
			_ => {
				sx::check(false, "the delegate signed these very terms");
				return;
			},
		};
		let a: [u8; 20] = vstub::io::hashing::keccak_256(&signer)[12..].try_into().unwrap();
		sx::check(Acc::from(H160(a)) == d, "the delegate signed these very terms");
		let mut v = if p == f { s.1.clone() } else { s.2.clone() };
		v.push((d, ANY));
		sx::check(Del::get(p) == v, "exactly this delegate is added");
		sx::check(Del::get(if p == f { g } else { f }) == if p == f { s.2.clone() } else { s.1.clone() }, "other futurepasses are untouched");
		sx::check(snap(&f, &g).0 == s.0, "holders keep theirs");
	} else {
		sx::reach("refused");
		sx::check(snap(&f, &g) == s, "a refusal changes nothing");
	}
	consistent(&f, &g);
}
/// Removing a delegate.
#[no_mangle]
pub extern "C" fn h_unregister() {
	let (f, g) = setup();
	let caller = some(&f, &g);
	let p = if sx::bool() { f } else { g };
	let d = some(&f, &g);
	let owner = Holders::<T>::get(caller) == Some(p);
	let was = is_del(&p, &d);
	let holder = Holders::<T>::get(d) == Some(p);
	let s = snap(&f, &g);
	let r = with_layer(|| Pallet::<T>::unregister_delegate(signed!(caller), p, d));
	let may = was && !holder && (owner || caller == p || caller == d);
	if r.is_ok() {
		sx::reach("removed");
		sx::check(owner || caller == p || caller == d, "only the owner, the futurepass or the delegate removes a delegate");
		sx::check(was && !holder, "the owner stays");
		let old = if p == f { s.1.clone() } else { s.2.clone() };
		let v: Table = old.into_iter().filter(|(a, _)| *a != d).collect();
		sx::check(Del::get(p) == v, "exactly this delegate is removed");
		sx::check(Del::get(if p == f { g } else { f }) == if p == f { s.2.clone() } else { s.1.clone() }, "other futurepasses are untouched");
		sx::check(snap(&f, &g).0 == s.0, "holders keep theirs");
	} else {
		sx::reach("refused");
		sx::check(!may, "owner, futurepass and delegate can always end a delegation");
		sx::check(snap(&f, &g) == s, "a refusal changes nothing");
	}
	consistent(&f, &g);
}
/// Handing a futurepass over, or giving it up.
#[no_mangle]
pub extern "C" fn h_transfer() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	let caller = some(&f, &g);
	let from = some(&f, &g);
	let to = if sx::bool() { Some(some(&f, &g)) } else { None };
	let p = Holders::<T>::get(from);
	let taken = to.map_or(false, |t| Holders::<T>::contains_key(t));
	let s = snap(&f, &g);
	let r = with_layer(|| Pallet::<T>::transfer_futurepass(signed!(caller), from, to));
	if r.is_ok() {
		sx::reach("handed over");
		let p = match p {
			Some(p) => p,
			None => {
				sx::check(false, "only a holder hands over");
				return;
			},
		};
		sx::check(caller == from || caller == p, "only the owner or the futurepass itself hands it over");
		sx::check(!taken, "the new owner holds no other");
		sx::check(to == Some(from) || Holders::<T>::get(from).is_none(), "the old owner holds it no longer");
		match to {
			Some(t) => {
				sx::check(Holders::<T>::get(t) == Some(p), "the new owner holds it");
				sx::check(Del::get(p).iter().all(|(a, _)| *a == t), "nobody but the new owner may act for it");
				sx::check(Del::get(p).contains(&(t, OWNER)), "the new owner is its owner");
			},
			None => sx::check(Del::get(p).is_empty(), "an abandoned futurepass has no delegates"),
		}
		let q = if p == f { g } else { f };
		sx::check(Del::get(q) == if p == f { s.2.clone() } else { s.1.clone() }, "other futurepasses are untouched");
		let i = sx::choose(6) as u8;
		sx::check(acc(i) == from || Some(acc(i)) == to || Holders::<T>::get(acc(i)) == s.0[i as usize], "other holders keep theirs");
	} else {
		sx::reach("refused");
		sx::check(snap(&f, &g) == s, "a refusal changes nothing");
		sx::check(Fail::get() || taken || p.is_none() || to == p || to == Some(from) || (caller != from && Some(caller) != p), "the owner can hand over");
	}
	consistent(&f, &g);
}
/// Acting through a futurepass.
#[no_mangle]
pub extern "C" fn h_act() {
	let (f, g) = setup();
	Black::put(sx::u8());
	let caller = some(&f, &g);
	let p = if sx::bool() { f } else { g };
	let n = sx::u8();
	let own = match sx::choose(6) {
		0 => Some(Call::register_delegate_with_signature { futurepass: p, delegate: acc(4), proxy_type: Kind(1), deadline: 0, signature: [0; 65] }),
		1 => Some(Call::unregister_delegate { futurepass: p, delegate: acc(1) }),
		2 => Some(Call::transfer_futurepass { current_owner: acc(0), new_owner: None }),
		3 => Some(Call::create { account: acc(4) }),
		_ => None,
	};
	let guarded = matches!(own, Some(Call::register_delegate_with_signature { .. }) | Some(Call::unregister_delegate { .. }) | Some(Call::transfer_futurepass { .. }));
	let owner = Holders::<T>::get(caller) == Some(p);
	let del = is_del(&p, &caller);
	let r = with_layer(|| Pallet::<T>::proxy_extrinsic(signed!(caller), p, Box::new(RtCall(own, n))));
	if r.is_ok() {
		sx::reach("acted");
		sx::check(del, "only a delegate acts through a futurepass");
		sx::check(n != Black::get(), "a forbidden call does not run");
		sx::check(!guarded || owner, "only the owner manages the futurepass through itself");
		sx::check(Dispatched::get() == vec![(Some(p), n)], "the call runs once, as the futurepass");
	} else {
		sx::reach("refused");
		sx::check(Dispatched::get().is_empty(), "a refused call does not run");
		sx::check(!del || n == Black::get() || (guarded && !owner), "a delegate can act");
	}
}
