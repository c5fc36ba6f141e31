//! XRPL transactions: an account of the XRP Ledger acts here by signing a transaction of that ledger.
#![allow(non_snake_case)]
use frame_support::dispatch::{DispatchInfo, DispatchResultWithPostInfo, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{CallMetadata, ConstU32, GetCallMetadata, IsSubType, UnfilteredDispatchable};
use frame_support::BoundedVec;
use hrt::codec::{Decode, Encode};
use hrt::*;
use hrt::{prefix, sys};
use pallet_xrpl::Call;
use seed_pallet_common::ExtrinsicChecker;
use seed_primitives::AccountId20;
use sp_core::{ecdsa, ed25519, H160};
use sp_runtime::traits::{Dispatchable, StaticLookup};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use sp_runtime::DispatchError;
use vstub::system::RawOrigin;
use vstub::xrplsdk::{sign, Fields};

/// The runtime's calls: an XRPL transaction's, and any other by number (`FP`: one of the futurepass).
#[derive(Clone, PartialEq, Debug)]
pub enum RtCall {
	Nothing,
	Xrpl(Call<T>),
	Other(u8),
}
const FP: u8 = 9;
impl Eq for RtCall {}
impl Encode for RtCall {
	fn encode_to<O: hrt::codec::Output + ?Sized>(&self, o: &mut O) {
		match self {
			RtCall::Nothing => o.write(&[0]),
			RtCall::Xrpl(c) => {
				o.write(&[1]);
				c.encode_to(o)
			},
			RtCall::Other(n) => o.write(&[2, *n]),
		}
	}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for RtCall {
	fn decode<I: hrt::codec::Input>(_i: &mut I) -> Result<Self, hrt::codec::Error> {
		Ok(RtCall::Nothing)
	}
}
impl From<frame_system::Call<T>> for RtCall {
	fn from(_: frame_system::Call<T>) -> Self {
		RtCall::Nothing
	}
}
impl IsSubType<Call<T>> for RtCall {
	fn is_sub_type(&self) -> Option<&Call<T>> {
		match self {
			RtCall::Xrpl(c) => Some(c),
			_ => None,
		}
	}
}
prefix!(PRan);
prefix!(PFee);
prefix!(PBal);
prefix!(PFp);
/// The calls that were made, and for whom.
type Ran = StorageValue<PRan, Vec<(Option<Acc>, u8)>, ValueQuery>;
/// The fees that were settled.
type Fees = StorageValue<PFee, Vec<(Acc, u128, u128)>, ValueQuery>;
type Money = StorageMap<PBal, (), Acc, u128, ValueQuery>;
/// The futurepass of an account.
type Fps = StorageMap<PFp, (), Acc, Acc, OptionQuery>;
impl Dispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	type Config = ();
	type Info = DispatchInfo;
	type PostInfo = PostDispatchInfo;
	fn dispatch(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo {
		match self {
			RtCall::Nothing => Ok(().into()),
			RtCall::Xrpl(c) => c.dispatch_bypass_filter(o),
			RtCall::Other(n) => {
				if DispatchFail::get() {
					return Err(DispatchError::Other("call").into());
				}
				let who = match o.raw {
					RawOrigin::Signed(a) => Some(a),
					_ => None,
				};
				Ran::mutate(|r| r.push((who, n)));
				Ok(().into())
			},
		}
	}
}
impl UnfilteredDispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo {
		self.dispatch(o)
	}
}
impl GetDispatchInfo for RtCall {
	fn get_dispatch_info(&self) -> DispatchInfo {
		Default::default()
	}
}
impl GetCallMetadata for RtCall {
	fn get_call_metadata(&self) -> CallMetadata {
		CallMetadata { function_name: "f", pallet_name: "p" }
	}
}
sys!(T, RtCall);
/// Calls that an XRPL transaction may not make.
const BAD: u8 = 5;
pub struct Valid;
impl ExtrinsicChecker for Valid {
	type Call = RtCall;
	type Extra = ();
	type Result = bool;
	fn check_extrinsic(c: &RtCall, _: &()) -> bool {
		!matches!(c, RtCall::Xrpl(_)) && *c != RtCall::Other(BAD)
	}
}
pub struct Look;
impl ExtrinsicChecker for Look {
	type Call = RtCall;
	type Extra = ();
	type Result = bool;
	fn check_extrinsic(c: &RtCall, _: &()) -> bool {
		*c == RtCall::Other(FP)
	}
}
impl StaticLookup for Look {
	type Source = H160;
	type Target = H160;
	fn lookup(s: H160) -> Result<H160, sp_runtime::traits::LookupError> {
		Fps::get(Acc::from(s)).map(|a| a.into()).ok_or(sp_runtime::traits::LookupError)
	}
	/// The owner of a futurepass.
	fn unlookup(t: H160) -> H160 {
		for k in 0..KEYS {
			let a = who(k).unwrap();
			if Fps::get(a) == Some(Acc::from(t)) {
				return a.into();
			}
		}
		H160([0; 20])
	}
}
impl pallet_xrpl::Config for T {
	type RuntimeEvent = ();
	type FuturepassLookup = Look;
	type RuntimeCall = RtCall;
	type CallValidator = Valid;
	type PalletsOrigin = RawOrigin<Acc>;
	type MaxMessageLength = ConstU32<1024>;
	type MaxSignatureLength = ConstU32<80>;
	type WeightInfo = ();
}
pub struct Pay;
impl pallet_transaction_payment::OnChargeTransaction<T> for Pay {
	type Balance = u128;
	type LiquidityInfo = u128;
	fn withdraw_fee(who: &Acc, _c: &RtCall, _i: &DispatchInfo, fee: u128, _t: u128) -> Result<u128, TransactionValidityError> {
		let b = Money::get(who);
		if b < fee {
			return Err(InvalidTransaction::Payment.into());
		}
		Money::insert(who, b - fee);
		Ok(fee)
	}
	fn correct_and_deposit_fee(who: &Acc, _i: &DispatchInfo, _p: &PostDispatchInfo, fee: u128, tip: u128, paid: u128) -> Result<(), TransactionValidityError> {
		sx::check(paid == fee, "what was taken is what is settled");
		Fees::mutate(|f| f.push((*who, fee, tip)));
		Ok(())
	}
}
impl pallet_transaction_payment::Config for T {
	type OnChargeTransaction = Pay;
}

/// The public keys of the signers, of either kind, and what is none.
const KEYS: u8 = 3;
fn key(n: u8) -> Vec<u8> {
	let mut k = vec![0x30 + n; 33];
	k[0] = match n {
		0 => 0xed,
		1 => 2,
		2 => 3,
		_ => 9,
	};
	k
}
/// The account of a key: the last 20 bytes of the Keccak hash of an Ed25519 key or of the point of an ECDSA key.
fn who(n: u8) -> Option<Acc> {
	let k: [u8; 33] = key(n).try_into().unwrap();
	match n {
		0 => AccountId20::try_from(ed25519::Public::from_raw(k[1..].try_into().unwrap())).ok(),
		1 | 2 => AccountId20::try_from(ecdsa::Public::from_raw(k)).ok(),
		_ => None,
	}
}
/// No two keys are the same account, and none is one of the others' or nobody's.
fn apart() {
	for k in 0..KEYS {
		let a = who(k).unwrap();
		sx::assume(!same(&a, &Acc::from(H160([0; 20]))));
		for j in 0..4u8 {
			sx::assume(!same(&a, &acc(j)));
		}
		for j in 0..k {
			sx::assume(!same(&a, &who(j).unwrap()));
		}
	}
}
/// The hash that stands for a call.
fn tag(n: u8) -> [u8; 32] {
	[0xa0 + n; 32]
}
/// Gives the calls these hashes.
fn hashes() {
	for n in [1, 2, BAD, FP] {
		sx::assume(sp_io::hashing::blake2_256(&RtCall::Other(n).encode()) == tag(n));
	}
}
fn hexs(b: &[u8]) -> Vec<u8> {
	b.iter().flat_map(|x| [b"0123456789abcdef"[(x >> 4) as usize], b"0123456789abcdef"[(x & 15) as usize]]).collect()
}
/// A number of two digits.
#[derive(Clone, Copy, PartialEq)]
struct Two(u8, u8);
impl Two {
	fn any() -> Two {
		let (a, b) = (sx::u8(), sx::u8());
		sx::assume((a < 10) & (b < 10));
		Two(a, b)
	}
	fn val(self) -> u32 {
		self.0 as u32 * 10 + self.1 as u32
	}
	fn text(self) -> [u8; 2] {
		[b'0' + self.0, b'0' + self.1]
	}
}
/// What a transaction says.
#[derive(Clone, PartialEq)]
struct Says {
	genesis: u8,
	nonce: Two,
	until: Two,
	tip: Two,
	call: u8,
}
impl Says {
	fn data(&self) -> Vec<u8> {
		let mut d = hexs(&[self.genesis; 32]);
		for t in [self.nonce, self.until, self.tip] {
			d.push(b':');
			d.extend_from_slice(&t.text());
		}
		d.push(b':');
		d.extend_from_slice(&hexs(&tag(self.call)));
		d
	}
}
fn fields(k: u8, from: u8, data: Vec<u8>, more: bool) -> Fields {
	let mut memos = vec![(b"Extrinsic".to_vec(), data)];
	if more {
		// other memos, of which the first of this kind counts
		memos.insert(0, (b"note".to_vec(), b"1:2".to_vec()));
		memos.push((b"extrinsic".to_vec(), b"x".to_vec()));
	}
	Fields { account: vec![from; 20], txn: Some(vec![0x77; 32]), key: key(k), memos }
}
/// Signs a transaction as the XRP Ledger does: Ed25519 over the prefixed bytes, ECDSA over half of their SHA-512.
fn signed_by(k: u8, f: &Fields, sig: &[u8]) {
	let mut m = b"STX\0".to_vec();
	m.extend_from_slice(&f.bytes());
	match k {
		0 => sign(&key(0)[1..], &m, sig),
		_ => sign(&key(k), &sp_io::hashing::sha512(&m)[..32], sig),
	}
}
fn sig(k: u8) -> Vec<u8> {
	if k == 0 {
		vec![7; 64]
	} else {
		vec![0x30, 6, 2, 1, 5, 2, 1, 6]
	}
}
fn tx(f: &Fields, sig: Vec<u8>, call: RtCall) -> Call<T> {
	Call::transact { encoded_msg: BoundedVec::try_from(f.bytes()).ok().unwrap(), signature: BoundedVec::try_from(sig).ok().unwrap(), call: Box::new(call) }
}
/// Balances, futurepasses and the nonce of the signer.
fn world(k: u8, at: u32, pass: bool) {
	apart();
	frame_system::Account::<T>::mutate(who(k).unwrap(), |a| a.nonce = at);
	for k in 0..KEYS {
		let a = who(k).unwrap();
		Money::insert(a, sx::u64() as u128);
		Money::insert(acc(k), sx::u64() as u128);
		if pass {
			Fps::insert(a, acc(k));
		}
	}
	// a futurepass has a nonce of its own
	frame_system::Account::<T>::mutate(acc(k), |a| a.nonce = sx::u32());
}
fn total() -> u128 {
	(0..KEYS).map(|k| Money::get(who(k).unwrap()) + Money::get(acc(k))).sum()
}
/// Whom a transaction is from, before its signature is looked at.
#[no_mangle]
pub extern "C" fn h_xrpl_check() {
	apart();
	let k = sx::choose(KEYS as u64 + 1) as u8;
	let n = [1, FP][sx::choose(2) as usize];
	let pass = sx::bool();
	if pass {
		for k in 0..KEYS {
			Fps::insert(who(k).unwrap(), acc(k));
		}
	}
	let s = Says { genesis: 0x47, nonce: Two::any(), until: Two::any(), tip: Two::any(), call: n };
	let c = tx(&fields(k, sx::u8(), s.data(), sx::bool()), sig(0), RtCall::Other(n));
	sx::check(c.is_self_contained(), "an XRPL transaction brings its own signature");
	let want = match who(k) {
		None => None,
		Some(a) if n == FP => Fps::get(a),
		Some(a) => Some(a),
	};
	match c.check_self_contained() {
		Some(Ok(a)) => {
			sx::reach("a transaction");
			sx::check(Some(Acc::from(a)) == want, "a transaction is its key's, or that of the futurepass for a futurepass call");
		},
		Some(Err(_)) => {
			sx::reach("no transaction");
			sx::check(want.is_none(), "every key can act");
		},
		None => sx::check(false, "it is checked"),
	}
}
/// One transaction, signed as it is or not, validated and applied.
fn apply(k: u8) {
	hashes();
	let (at, pass) = (sx::u32(), sx::bool());
	sx::assume(at < u32::MAX);
	world(k, at, pass);
	DispatchFail::put(sx::bool());
	let now = sx::u32();
	set_block(now);
	let s = Says { genesis: if sx::bool() { 0x47 } else { 0x48 }, nonce: Two::any(), until: Two::any(), tip: Two::any(), call: [1, FP, BAD][sx::choose(3) as usize] };
	// the call that is brought along, and what was signed and by whom
	let n = if sx::bool() { s.call } else { 2 };
	let mut t = s.clone();
	let by = match sx::choose(4) {
		0 => k,
		1 => {
			t.nonce = Two::any();
			t.until = Two::any();
			t.tip = Two::any();
			k
		},
		2 => {
			t.call = 2;
			k
		},
		_ => (k + 1) % KEYS,
	};
	let from = sx::u8();
	let more = sx::bool();
	let f = fields(k, from, s.data(), more);
	signed_by(by, &fields(k, from, t.data(), more), &sig(k));
	let mut g = sig(k);
	g[2] = sx::u8();
	let true_sig = g == sig(k);
	let c = tx(&f, g, RtCall::Other(n));
	let h = match c.check_self_contained() {
		Some(Ok(a)) => Acc::from(a),
		_ => {
			sx::check(n == FP && !pass, "every key can act");
			return;
		},
	};
	let me = who(k).unwrap();
	let fee = 100 + s.tip.val() as u128;
	let info = DispatchInfo::default();
	let good = s.genesis == 0x47 && n == s.call && now <= s.until.val() && by == k && t == s && true_sig;
	let b = Money::get(h);
	let fits = good && b >= fee;
	let nonce = s.nonce.val();
	let before = total();
	let other = frame_system::Account::<T>::get(acc(k)).nonce;
	if sx::bool() {
		let _ = with_layer(|| -> Result<(), ()> {
			let v = c.validate_self_contained(&h.into(), &info, 100).unwrap();
			sx::check(v.is_ok() == (fits && nonce >= at), "a transaction that is signed as it is, for this chain and time, can pay and is not used up is valid");
			if let Ok(v) = v {
				sx::reach("valid");
				let tag = |k: u32| (me, k).encode();
				sx::check(v.provides == vec![tag(nonce)], "it comes by its signer and nonce");
				sx::check(v.requires == if nonce > at { vec![tag(nonce - 1)] } else { vec![] }, "after the one before it");
			}
			Err(())
		});
		return;
	}
	let r = with_layer(|| Call::<T>::apply_self_contained(RtCall::Xrpl(c.clone()), &h.into(), &info, 100).map(|_| ()).ok_or(()));
	sx::check(r.is_ok() == (fits && nonce == at), "a transaction is applied if it is signed as it is, in its signer's order, on this chain, in time and paid for");
	let ran = Ran::get();
	if r.is_ok() {
		sx::reach("applied");
		sx::check(frame_system::Account::<T>::get(me).nonce == at + 1, "it is used up");
		sx::check(b - Money::get(h) == fee && Fees::get() == vec![(h, fee, s.tip.val() as u128)], "the signer, or the futurepass for its call, pays the fee and tip once");
		sx::check(before - total() == fee, "nobody else pays");
		sx::check(frame_system::Account::<T>::get(acc(k)).nonce == other, "a futurepass's own transactions are not");
		sx::check(ran == if n != BAD && !DispatchFail::get() { vec![(Some(me), n)] } else { vec![] }, "the call is made once, for the signer, if it may be");
		let again = with_layer(|| Call::<T>::apply_self_contained(RtCall::Xrpl(c), &h.into(), &info, 100).map(|_| ()).ok_or(()));
		sx::check(again.is_err() && Ran::get() == ran, "no transaction is applied twice");
	} else {
		sx::reach("not applied");
		sx::check(ran.is_empty() && total() == before && frame_system::Account::<T>::get(me).nonce == at, "nothing happens");
	}
}
#[no_mangle]
pub extern "C" fn h_xrpl_apply_ed() {
	apply(0)
}
#[no_mangle]
pub extern "C" fn h_xrpl_apply_ec() {
	apply(1)
}
/// The call itself.
#[no_mangle]
pub extern "C" fn h_xrpl_transact() {
	apart();
	DispatchFail::put(sx::bool());
	let k = sx::choose(KEYS as u64 + 1) as u8;
	let o = match sx::choose(3) {
		0 => RawOrigin::Root,
		1 => RawOrigin::None,
		_ => RawOrigin::Signed(who(k).unwrap_or(acc(1))),
	};
	let none = o == RawOrigin::None;
	let n = [1, BAD, FP][sx::choose(3) as usize];
	let s = Says { genesis: 0x47, nonce: Two::any(), until: Two::any(), tip: Two::any(), call: n };
	let c = RtCall::Xrpl(tx(&fields(k, sx::u8(), s.data(), sx::bool()), vec![], RtCall::Other(n)));
	let r = with_layer(|| c.dispatch(o.into()));
	let ok = none && n != BAD && who(k).is_some() && !DispatchFail::get();
	sx::check(r.is_ok() == ok, "only a checked transaction makes a call, and only one it may make");
	if ok {
		sx::reach("a call");
		sx::check(Ran::get() == vec![(who(k), n)], "the call is made once, for the signer");
	} else {
		sx::reach("no call");
		sx::check(Ran::get().is_empty(), "no other call is made");
	}
}
/// Messages that are no transactions.
#[no_mangle]
pub extern "C" fn h_xrpl_malformed() {
	hashes();
	world(0, 11, true);
	set_block(5);
	let s = Says { genesis: 0x47, nonce: Two(1, 1), until: Two(2, 2), tip: Two(0, 3), call: 1 };
	let mut f = fields(0, 9, s.data(), sx::bool());
	let last = f.memos.len() / 2;
	let mut call = RtCall::Other(1);
	let cut = |d: &[u8], i: usize| d.iter().position(|c| *c == b':').map(|p| d[..p * (i > 0) as usize].to_vec()).unwrap();
	match sx::choose(16) {
		0 => f.key = vec![],
		1 => f.key.truncate(1),
		2 => f.key.truncate(32),
		3 => f.key.push(1),
		4 => {
			f.key[0] = sx::u8();
			sx::assume((f.key[0] == 0xec) | (f.key[0] == 4) | (f.key[0] == 0));
		},
		5 => f.memos.clear(),
		6 => f.memos = vec![(b"extrinsics".to_vec(), s.data())],
		7 => f.memos[0].0 = vec![0xff],
		8 => f.memos[last].1 = vec![0xc3],
		9 => f.memos[last].1 = vec![],
		10 => f.memos[last].1 = cut(&f.memos[last].1, 1),
		11 => f.memos[last].1 = s.data().iter().map(|c| if *c == b'3' { b'-' } else { *c }).collect(),
		12 => {
			let mut d = hexs(&[0x47; 32]);
			d.extend_from_slice(b":4294967307:22:3:");
			d.extend_from_slice(&hexs(&tag(1)));
			f.memos[last].1 = d;
		},
		13 => {
			let mut d = hexs(&[0x47; 32]);
			d.extend_from_slice(b":11:22:18446744073709551616:");
			d.extend_from_slice(&hexs(&tag(1)));
			f.memos[last].1 = d;
		},
		14 => f.txn = None,
		_ => {
			// a transaction in a transaction
			call = RtCall::Xrpl(tx(&f, sig(0), RtCall::Other(1)));
			sx::assume(sp_io::hashing::blake2_256(&call.encode()) == [0xcc; 32]);
			f.memos[last].1 = hexs(&[0x47; 32]);
			f.memos[last].1.extend_from_slice(b":11:22:3:");
			f.memos[last].1.extend_from_slice(&hexs(&[0xcc; 32]));
		},
	}
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), call);
	let me = who(0).unwrap();
	Money::insert(me, 1000);
	let before = total();
	sx::reach("refused");
	let _ = c.check_self_contained();
	let info = DispatchInfo::default();
	sx::check(c.validate_self_contained(&me.into(), &info, 100).map_or(true, |r| r.is_err()), "no transaction");
	let r = with_layer(|| Call::<T>::apply_self_contained(RtCall::Xrpl(c), &me.into(), &info, 100).map(|_| ()).ok_or(()));
	sx::check(r.is_err() && Ran::get().is_empty() && total() == before, "and nothing happens");
}
