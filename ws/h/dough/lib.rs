//! Doughnuts: the certificates by which an account lets another act for it.
#![allow(non_snake_case)]
use doughnut_rs::signature::sign;
use frame_support::dispatch::{DispatchInfo, DispatchResultWithPostInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{CallMetadata, GetCallMetadata, IsSubType, UnfilteredDispatchable};
use hrt::codec::{Decode, Encode};
use hrt::*;
use hrt::{prefix, signed, sys};
use pallet_doughnut::{BlockedDoughnuts, BlockedHolders, Call, Pallet, WhitelistedHolders};
use seed_pallet_common::ExtrinsicChecker;
use seed_primitives::AccountId20;
use sp_core::{ecdsa, H160, H256};
use sp_runtime::traits::{Dispatchable, StaticLookup};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use sp_runtime::{DispatchError, DispatchResult};
use vstub::system::RawOrigin;

/// The runtime's calls: a doughnut's, and any other by number (`FP`: one of the futurepass).
#[derive(Clone, PartialEq, Debug)]
pub enum RtCall {
	Nothing,
	Dough(Call<T>),
	Other(u8),
}
const FP: u8 = 9;
impl Eq for RtCall {}
impl Encode for RtCall {
	fn encode_to<O: hrt::codec::Output + ?Sized>(&self, o: &mut O) {
		match self {
			RtCall::Nothing => o.write(&[0]),
			RtCall::Dough(c) => {
				o.write(&[1]);
				c.encode_to(o)
			},
			RtCall::Other(n) => o.write(&[2, *n]),
		}
	}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for RtCall {
	fn decode<I: hrt::codec::Input>(_i: &mut I) -> Result<Self, hrt::codec::Error> {
		Ok(RtCall::Nothing)
	}
}
impl From<frame_system::Call<T>> for RtCall {
	fn from(_: frame_system::Call<T>) -> Self {
		RtCall::Nothing
	}
}
impl IsSubType<Call<T>> for RtCall {
	fn is_sub_type(&self) -> Option<&Call<T>> {
		match self {
			RtCall::Dough(c) => Some(c),
			_ => None,
		}
	}
}
prefix!(PRan);
prefix!(PFee);
prefix!(PBal);
prefix!(PFp);
/// The calls that were made, and for whom.
type Ran = StorageValue<PRan, Vec<(Option<Acc>, u8)>, ValueQuery>;
/// The fees that were settled.
type Fees = StorageValue<PFee, Vec<(Acc, u128, u128)>, ValueQuery>;
type Money = StorageMap<PBal, (), Acc, u128, ValueQuery>;
/// The futurepass of an account.
type Fps = StorageMap<PFp, (), Acc, Acc, OptionQuery>;
impl Dispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	type Config = ();
	type Info = DispatchInfo;
	type PostInfo = PostDispatchInfo;
	fn dispatch(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo {
		match self {
			RtCall::Nothing => Ok(().into()),
			RtCall::Dough(c) => c.dispatch_bypass_filter(o),
			RtCall::Other(n) => {
				if DispatchFail::get() {
					return Err(DispatchError::Other("call").into());
				}
				let who = match o.raw {
					RawOrigin::Signed(a) => Some(a),
					_ => None,
				};
				Ran::mutate(|r| r.push((who, n)));
				Ok(().into())
			},
		}
	}
}
impl UnfilteredDispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo {
		self.dispatch(o)
	}
}
impl GetDispatchInfo for RtCall {
	fn get_dispatch_info(&self) -> DispatchInfo {
		Default::default()
	}
}
impl GetCallMetadata for RtCall {
	fn get_call_metadata(&self) -> CallMetadata {
		CallMetadata { function_name: "f", pallet_name: "p" }
	}
}
sys!(T, RtCall);
/// Toppings allow one call.
pub struct Valid;
impl ExtrinsicChecker for Valid {
	type Call = RtCall;
	type Extra = doughnut_rs::Topping;
	type Result = DispatchResult;
	fn check_extrinsic(c: &RtCall, t: &doughnut_rs::Topping) -> DispatchResult {
		match c {
			RtCall::Other(n) if *n == t.0 && t.1 == 7 => Ok(()),
			_ => Err(DispatchError::Other("topping")),
		}
	}
}
pub struct Look;
impl ExtrinsicChecker for Look {
	type Call = RtCall;
	type Extra = ();
	type Result = DispatchResult;
	fn check_extrinsic(c: &RtCall, _: &()) -> DispatchResult {
		if *c == RtCall::Other(FP) {
			Ok(())
		} else {
			Err(DispatchError::Other("no futurepass call"))
		}
	}
}
impl StaticLookup for Look {
	type Source = H160;
	type Target = H160;
	fn lookup(s: H160) -> Result<H160, sp_runtime::traits::LookupError> {
		Fps::get(Acc::from(s)).map(|a| a.into()).ok_or(sp_runtime::traits::LookupError)
	}
	fn unlookup(t: H160) -> H160 {
		t
	}
}
impl pallet_doughnut::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type CallValidator = Valid;
	type FuturepassLookup = Look;
	type WeightInfo = ();
}
pub struct Pay;
impl pallet_transaction_payment::OnChargeTransaction<T> for Pay {
	type Balance = u128;
	type LiquidityInfo = u128;
	fn withdraw_fee(who: &Acc, _c: &RtCall, _i: &DispatchInfo, fee: u128, _t: u128) -> Result<u128, TransactionValidityError> {
		let b = Money::get(who);
		if b < fee {
			return Err(InvalidTransaction::Payment.into());
		}
		Money::insert(who, b - fee);
		Ok(fee)
	}
	fn correct_and_deposit_fee(who: &Acc, _i: &DispatchInfo, _p: &PostDispatchInfo, fee: u128, tip: u128, paid: u128) -> Result<(), TransactionValidityError> {
		sx::check(paid == fee, "what was taken is what is settled");
		Fees::mutate(|f| f.push((*who, fee, tip)));
		Ok(())
	}
}
impl pallet_transaction_payment::Config for T {
	type OnChargeTransaction = Pay;
}
type D = Pallet<T>;
/// A public key: three accounts' and one that is none.
fn key(n: u8) -> [u8; 33] {
	let mut k = [0x30 + n; 33];
	k[0] = if n < 3 { 2 + (n & 1) } else { 9 };
	k
}
fn who(k: &[u8; 33]) -> Option<Acc> {
	AccountId20::try_from(ecdsa::Public::from_raw(*k)).ok()
}
/// A doughnut's parts and its bytes.
struct Nut {
	version: u8,
	issuer: u8,
	holder: u8,
	mode: u8,
	expiry: u32,
	start: u32,
	signed: u8,
	domain: u8,
	top: [u8; 3],
}
impl Nut {
	fn any() -> Nut {
		Nut::of(sx::choose(4) as u8, sx::choose(4) as u8)
	}
	fn of(issuer: u8, holder: u8) -> Nut {
		Nut { version: sx::u8(), issuer, holder, mode: sx::u8(), expiry: sx::u32(), start: sx::u32(), signed: sx::u8(), domain: sx::u8(), top: sx::bytes::<3>() }
	}
	fn bytes(&self) -> Vec<u8> {
		let mut b = vec![self.version];
		b.extend_from_slice(&key(self.issuer));
		b.extend_from_slice(&key(self.holder));
		b.push(self.mode);
		b.extend_from_slice(&self.expiry.to_be_bytes());
		b.extend_from_slice(&self.start.to_be_bytes());
		b.push(self.signed);
		b.push(self.domain);
		b.extend_from_slice(&self.top);
		b
	}
	fn issuer(&self) -> Option<Acc> {
		who(&key(self.issuer))
	}
	fn holder(&self) -> Option<Acc> {
		who(&key(self.holder))
	}
	fn payer(&self) -> Option<Acc> {
		if self.mode == 0 {
			self.issuer()
		} else {
			self.holder()
		}
	}
	/// The topping agrees to call `n`.
	fn allows(&self, n: u8) -> bool {
		self.domain == 1 && self.top[0] == 1 && self.top[1] == n && self.top[2] == 7
	}
}
/// No two keys are the same account, and none is one of the others' or nobody's.
fn apart() {
	for k in 0..3u8 {
		let a = who(&key(k)).unwrap();
		sx::assume(!same(&a, &Acc::from(H160([0; 20]))));
		for j in 0..4u8 {
			sx::assume(!same(&a, &acc(j)));
		}
		for j in 0..k {
			sx::assume(!same(&a, &who(&key(j)).unwrap()));
		}
	}
}
fn genesis() -> H256 {
	H256([0x47; 32])
}
fn outer(n: u8, d: &[u8], nonce: u32, g: H256, tip: u64, sig: Vec<u8>) -> Call<T> {
	Call::transact { call: Box::new(RtCall::Other(n)), doughnut: d.to_vec(), nonce, genesis_hash: g, tip, signature: sig }
}
/// Who a doughnut's transaction is from.
#[no_mangle]
pub extern "C" fn h_dough_check() {
	let d = Nut::any();
	let now = sx::u32();
	set_block(now);
	let (n, nonce, tip) = (sx::u8(), sx::u32(), sx::u64());
	let g = if sx::bool() { genesis() } else { H256([1; 32]) };
	let b = d.bytes();
	// what was signed, by whom and how
	let by = sx::choose(4) as u8;
	let ver = if sx::bool() { 1 } else { 0 };
	let (n2, nonce2, tip2) = (sx::u8(), sx::u32(), sx::u64());
	let g2 = if sx::bool() { genesis() } else { H256([1; 32]) };
	let mut b2 = b.clone();
	let at = [0usize, 5, 40, 67, 68, 78][sx::choose(6) as usize];
	b2[at] = sx::u8();
	let same_bytes = b2[at] == b[at];
	let sig = sign(ver, &key(by), &outer(n2, &b2, nonce2, g2, tip2, vec![]).encode());
	let c = outer(n, &b, nonce, g, tip, sig);
	sx::check(c.is_self_contained(), "a doughnut's transaction brings its own signature");
	let r = c.check_self_contained();
	let fits = by == d.holder && ver == 1 && n2 == n && nonce2 == nonce && tip2 == tip && g2 == g && same_bytes;
	let good = d.version == 1 && d.signed == 1 && d.start <= now && now < d.expiry && d.holder().is_some();
	match r {
		Some(Ok(a)) => {
			sx::reach("a transaction");
			sx::check(good, "a doughnut counts while it is valid and signed by its issuer");
			sx::check(fits, "its holder signed exactly this transaction");
			sx::check(Some(Acc::from(a)) == d.holder(), "a doughnut's transaction is its holder's");
		},
		Some(Err(_)) => {
			sx::reach("no transaction");
			sx::check(!(good && fits), "what a holder signs is accepted");
		},
		None => sx::check(false, "a doughnut's transaction is checked"),
	}
}
/// One state: who is blocked, who may, who has what.
struct World {
	listed: bool,
	blocked: bool,
	cut: bool,
}
fn world(d: &Nut, one: bool) -> World {
	apart();
	let w = if one {
		let k = sx::choose(4);
		World { listed: k != 1, blocked: k == 2, cut: k == 3 }
	} else {
		World { listed: sx::bool(), blocked: sx::bool(), cut: sx::bool() }
	};
	if let Some(h) = d.holder() {
		WhitelistedHolders::<T>::insert(h, w.listed);
		if let (Some(i), true) = (d.issuer(), w.cut) {
			BlockedHolders::<T>::insert(i, h, true);
		}
	}
	if w.blocked {
		BlockedDoughnuts::<T>::insert(sp_io::hashing::keccak_256(&d.bytes()), true);
	}
	// others' business
	WhitelistedHolders::<T>::insert(acc(1), true);
	BlockedHolders::<T>::insert(acc(1), acc(2), true);
	DispatchFail::put(sx::bool());
	w
}
#[no_mangle]
pub extern "C" fn h_dough_transact() {
	let d = Nut::any();
	let w = world(&d, false);
	let n = sx::u8();
	let o = match sx::choose(3) {
		0 => RawOrigin::Root,
		1 => RawOrigin::None,
		_ => RawOrigin::Signed(d.holder().unwrap_or(acc(1))),
	};
	let none = o == RawOrigin::None;
	let c = outer(n, &d.bytes(), sx::u32(), genesis(), sx::u64(), vec![]);
	let r = RtCall::Dough(c).dispatch(o.into());
	let ok = none && d.version == 1 && d.signed == 1 && d.issuer().is_some() && d.holder().is_some() && w.listed && !w.blocked && !w.cut && d.allows(n);
	sx::check(r.is_ok() == ok, "a doughnut is used by a listed holder while neither is revoked, for what its topping allows");
	let ran = Ran::get();
	if ok && !DispatchFail::get() {
		sx::reach("a call");
		sx::check(ran == vec![(d.issuer(), n)], "the call is made once, for the issuer");
	} else {
		sx::reach("no call");
		sx::check(ran.is_empty(), "no other call is made");
	}
}
#[no_mangle]
pub extern "C" fn h_dough_apply() {
	let mut d = Nut::of([0, 3][sx::choose(2) as usize], sx::choose(2) as u8);
	d.version = if sx::bool() { 1 } else { 0 };
	let w = world(&d, true);
	sx::assume(d.holder().is_some());
	let h = d.holder().unwrap();
	let n = sx::u8();
	let g = if sx::bool() { genesis() } else { H256([1; 32]) };
	let (nonce, at, tip) = (sx::u32(), sx::u32(), sx::u64());
	sx::assume(at < u32::MAX);
	frame_system::Account::<T>::mutate(h, |a| a.nonce = at);
	let pass = sx::bool();
	for k in 0..3u8 {
		let a = who(&key(k)).unwrap();
		Money::insert(a, sx::u64() as u128);
		Money::insert(acc(k), sx::u64() as u128);
		if pass {
			Fps::insert(a, acc(k));
		}
	}
	let payer = d.payer().and_then(|p| if n == FP { Fps::get(p) } else { Some(p) });
	let b = payer.map_or(0, |p| Money::get(p));
	let total: u128 = (0..3u8).map(|k| Money::get(who(&key(k)).unwrap()) + Money::get(acc(k))).sum();
	let c = outer(n, &d.bytes(), nonce, g, tip, vec![]);
	let len = 100usize;
	let fee = 100 + tip as u128;
	let info = DispatchInfo::default();
	let fits = d.version == 1 && g == genesis() && payer.is_some() && b >= fee;
	if sx::bool() {
		let r = with_layer(|| -> Result<(), ()> {
			let v = c.validate_self_contained(&h.into(), &info, len).unwrap();
			sx::check(v.is_ok() == (fits && nonce >= at), "a transaction that can pay and is not used up is valid");
			if let Ok(v) = v {
				sx::reach("valid");
				let tag = |k: u32| (H160::from(h), k).encode();
				sx::check(v.provides == vec![tag(nonce)], "it comes by its holder and nonce");
				sx::check(v.requires == if nonce > at { vec![tag(nonce - 1)] } else { vec![] }, "after the one before it");
			}
			Err(())
		});
		let _ = r;
		return;
	}
	let mut done = None;
	let r = with_layer(|| {
		done = Call::<T>::apply_self_contained(RtCall::Dough(c.clone()), &h.into(), &info, len);
		done.map(|_| ()).ok_or(())
	});
	sx::check(r.is_ok() == (fits && nonce == at), "a transaction is applied in its holder's order, if it is paid for, on this chain");
	let ran = Ran::get();
	if r.is_ok() {
		sx::reach("applied");
		sx::check(frame_system::Account::<T>::get(h).nonce == at + 1, "it is used up");
		sx::check(b - Money::get(payer.unwrap()) == fee && Fees::get() == vec![(payer.unwrap(), fee, tip as u128)], "the payer the doughnut names pays the fee and tip once");
		let now: u128 = (0..3u8).map(|k| Money::get(who(&key(k)).unwrap()) + Money::get(acc(k))).sum();
		sx::check(total - now == fee, "nobody else pays");
		let ok = d.signed == 1 && d.issuer().is_some() && w.listed && !w.blocked && !w.cut && d.allows(n) && !DispatchFail::get();
		sx::check(ran == if ok { vec![(d.issuer(), n)] } else { vec![] }, "the call is made once, for the issuer, if it is allowed");
		// and never again
		let again = with_layer(|| Call::<T>::apply_self_contained(RtCall::Dough(c), &h.into(), &info, len).map(|_| ()).ok_or(()));
		sx::check(again.is_err() && Ran::get() == ran, "no transaction is applied twice");
	} else {
		sx::reach("not applied");
		let now: u128 = (0..3u8).map(|k| Money::get(who(&key(k)).unwrap()) + Money::get(acc(k))).sum();
		sx::check(ran.is_empty() && now == total && frame_system::Account::<T>::get(h).nonce == at, "nothing happens");
	}
}
#[no_mangle]
pub extern "C" fn h_dough_revoke() {
	apart();
	let d = Nut::any();
	let hash = sp_io::hashing::keccak_256(&d.bytes());
	let e = Nut::of(0, 1);
	sx::assume(e.bytes() != d.bytes());
	let hash2 = sp_io::hashing::keccak_256(&e.bytes());
	let (x, y) = (sx::bool(), sx::bool());
	BlockedDoughnuts::<T>::insert(hash, x);
	BlockedDoughnuts::<T>::insert(hash2, y);
	let me = match sx::choose(4) {
		3 => acc(1),
		k => who(&key(k as u8)).unwrap(),
	};
	let root = sx::bool();
	let o: vstub::system::Origin<Acc, RtCall> = if root { RawOrigin::Root.into() } else { signed!(me) };
	let on = sx::bool();
	match sx::choose(3) {
		0 => {
			let r = with_layer(|| D::revoke_doughnut(o, d.bytes(), on));
			let ok = !root && d.version == 1 && d.issuer() == Some(me);
			sx::check(r.is_ok() == ok, "its issuer alone revokes a doughnut");
			sx::check(BlockedDoughnuts::<T>::get(hash) == if ok { on } else { x }, "and takes that back");
			sx::reach("a doughnut");
		},
		1 => {
			let (p, q) = (sx::bool(), sx::bool());
			BlockedHolders::<T>::insert(me, acc(2), p);
			BlockedHolders::<T>::insert(acc(2), me, q);
			let r = with_layer(|| D::revoke_holder(o, acc(2), on));
			sx::check(r.is_ok() != root, "anybody revokes holders for himself");
			sx::check(BlockedHolders::<T>::get(me, acc(2)) == if root { p } else { on } && BlockedHolders::<T>::get(acc(2), me) == q, "for himself only");
			sx::reach("a holder");
		},
		_ => {
			let (p, q) = (sx::bool(), sx::bool());
			WhitelistedHolders::<T>::insert(acc(2), p);
			WhitelistedHolders::<T>::insert(acc(3), q);
			let r = with_layer(|| D::update_whitelisted_holders(o, acc(2), on));
			sx::check(r.is_ok() == root, "governance alone lists holders");
			sx::check(WhitelistedHolders::<T>::get(acc(2)) == if root { on } else { p } && WhitelistedHolders::<T>::get(acc(3)) == q, "that holder and no other");
			sx::reach("a listing");
		},
	}
	sx::check(BlockedDoughnuts::<T>::get(hash2) == y, "other doughnuts stay as they were");
}
