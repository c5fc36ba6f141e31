#![allow(non_snake_case, deprecated)]
use frame_support::traits::InstanceFilter;
use hrt::abi::{self, num, tuple, wa, wh, wn, wu, P};
use hrt::*;
use hrt::{calls, evm, prefix, signed, sys};
use pallet_evm_precompiles_futurepass as fpp;
use pallet_evm_precompiles_futurepass_registrar as reg;
use pallet_futurepass::{Holders, NextFuturepassId, ProxyProvider};
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_pallet_common::*;
use sp_core::{H160, H256, U256};
use sp_runtime::{DispatchError, DispatchResult};
use vstub::evm::*;
use vstub::system::RawOrigin;

calls!(T, RtCall { Futurepass: pallet_futurepass::Call<T> });
sys!(T, RtCall);
evm!(T, Chain);
prefix!(PFail);
prefix!(PAllow);
prefix!(PAsked);
prefix!(PMade);
prefix!(PInfo);
type Fail = StorageValue<PFail, bool, ValueQuery>;
type Allow = StorageValue<PAllow, bool, ValueQuery>;
/// What the filter of the proxy type was asked: kind, target, input, whether the target has code.
type Asked = StorageValue<PAsked, Vec<(u8, H160, Vec<u8>, bool)>, ValueQuery>;
/// The contracts created: by whom, code, salt, value, gas limit.
type Made = StorageValue<PMade, Vec<(H160, Vec<u8>, Option<H256>, U256, u64)>, ValueQuery>;
/// The next creation: how it ends (4: not at all), its address and the gas it uses.
type Info = StorageValue<PInfo, (u8, H160, u64), ValueQuery>;
const OWNER: u8 = 255;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Kind(u8);
impl Default for Kind {
	fn default() -> Self {
		Kind(1)
	}
}
impl From<Kind> for u8 {
	fn from(k: Kind) -> u8 {
		k.0
	}
}
impl TryFrom<u8> for Kind {
	type Error = &'static str;
	fn try_from(v: u8) -> Result<Kind, &'static str> {
		if v <= 4 || v == OWNER { Ok(Kind(v)) } else { Err("kind") }
	}
}
impl InstanceFilter<RtCall> for Kind {
	fn filter(&self, _c: &RtCall) -> bool {
		true
	}
}
impl fpp::EvmProxyCallFilter for Kind {
	fn is_evm_proxy_call_allowed(&self, c: &fpp::EvmSubCall, code: bool) -> bool {
		Asked::mutate(|v| v.push((self.0, c.to.0, c.call_data.inner.clone().into(), code)));
		Allow::get()
	}
}
impl vstub::proxy::Config for T {
	type ProxyType = Kind;
}
type Prox = vstub::proxy::Pallet<T>;
type Table = vstub::proxy::Proxies<T>;
fn def(delegate: Acc, k: u8, delay: u32) -> vstub::proxy::Def<T> {
	vstub::proxy::ProxyDefinition { delegate, proxy_type: Kind(k), delay }
}
pub struct Proxies;
impl ProxyProvider<T> for Proxies {
	fn exists(f: &Acc, d: &Acc, k: Option<Kind>) -> bool {
		Prox::find_proxy(f, d, k).is_ok()
	}
	fn owner(f: &Acc) -> Option<Acc> {
		Table::get(f).0.into_iter().find(|d| d.proxy_type.0 == OWNER).map(|d| d.delegate)
	}
	fn delegates(f: &Acc) -> Vec<(Acc, Kind)> {
		Table::get(f).0.into_iter().map(|d| (d.delegate, d.proxy_type)).collect()
	}
	fn add_delegate(_f: &Acc, f: &Acc, d: &Acc, k: &u8) -> DispatchResult {
		if Fail::get() {
			return Err(DispatchError::Other("proxy"));
		}
		Prox::add_proxy_delegate(f, *d, Kind::try_from(*k)?, 0)
	}
	fn remove_delegate(_r: &Acc, f: &Acc, d: &Acc) -> DispatchResult {
		let k = Prox::find_proxy(f, d, None)?.proxy_type;
		Prox::remove_proxy_delegate(f, *d, k, 0)
	}
	fn remove_account(_r: &Acc, f: &Acc) -> DispatchResult {
		Table::remove(f);
		Ok(())
	}
	fn proxy_call(_o: vstub::system::Origin<Acc, RtCall>, _f: Acc, _c: RtCall) -> DispatchResult {
		unimplemented!()
	}
}
pub struct Blacklist;
impl ExtrinsicChecker for Blacklist {
	type Call = RtCall;
	type Extra = ();
	type Result = bool;
	fn check_extrinsic(_c: &RtCall, _e: &()) -> bool {
		false
	}
}
impl pallet_futurepass::Config for T {
	type RuntimeEvent = ();
	type Proxy = Proxies;
	type RuntimeCall = RtCall;
	type BlacklistedCallValidator = Blacklist;
	type ApproveOrigin = frame_system::EnsureRoot<Acc>;
	type ProxyType = Kind;
	type WeightInfo = ();
}
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(_a: Address, _p: &[u8; 4]) -> Option<u32> {
		None
	}
	fn runtime_id_to_evm_id(_id: u32, _p: &[u8; 4]) -> Address {
		Address(H160::zero())
	}
}
/// What runs the contract creations of futurepasses.
pub struct Chain;
fn reason(n: u8) -> ExitReason {
	match n {
		0 => ExitReason::Succeed(ExitSucceed::Returned),
		1 => ExitReason::Revert(ExitRevert::Reverted),
		2 => ExitReason::Error(ExitError::OutOfGas),
		_ => ExitReason::Fatal(ExitFatal::NotSupported),
	}
}
fn make(by: H160, code: Vec<u8>, salt: Option<H256>, value: U256, gas: u64) -> Result<CreateInfo, RunnerError<vstub::evm::Error<T>>> {
	let (n, at, used) = Info::get();
	if n == 4 {
		return Err(RunnerError { error: vstub::evm::Error::BalanceLow, weight: Default::default() });
	}
	Made::mutate(|v| v.push((by, code, salt, value, gas)));
	Ok(CreateInfo { exit_reason: reason(n), value: at, used_gas: UsedGas { standard: used.into(), effective: used.into() } })
}
type W = Option<vstub::weights::Weight>;
type List = Vec<(H160, Vec<H256>)>;
impl Runner<T> for Chain {
	type Error = vstub::evm::Error<T>;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: List, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<(), RunnerError<Self::Error>> {
		Ok(())
	}
	fn call(_: H160, _: H160, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>> {
		unimplemented!()
	}
	fn create(a: H160, c: Vec<u8>, v: U256, g: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		make(a, c, None, v, g)
	}
	fn create2(a: H160, c: Vec<u8>, s: H256, v: U256, g: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		make(a, c, Some(s), v, g)
	}
}
/// The futurepass with number n.
fn fp(n: u128) -> Acc {
	let mut b = [0xffu8; 20];
	b[4..].copy_from_slice(&n.to_be_bytes());
	Acc::from(H160(b))
}
/// Two futurepasses: F (owner 0, maybe delegates 1 and 2 of any type), G (owner 3, delegates 0 and 1, or nobody).
/// Account 4 holds nothing.
fn setup() -> (Acc, Acc) {
	let next = sx::u128();
	sx::assume(next >= 3 && next < u128::MAX);
	NextFuturepassId::<T>::put(next);
	let (f, g) = (fp(1), fp(2));
	Holders::<T>::insert(acc(0), f);
	let mut v = vec![def(acc(0), OWNER, 0)];
	if sx::bool() {
		v.insert(0, def(acc(1), sx::below(5) as u8, sx::u32()));
		v.push(def(acc(2), sx::below(5) as u8, 0));
	}
	Table::insert(f, (v, 0));
	if sx::bool() {
		Holders::<T>::insert(acc(3), g);
		Table::insert(g, (vec![def(acc(3), OWNER, 0), def(acc(0), 1, 0), def(acc(1), 1, 0)], 0));
	}
	(f, g)
}
fn some(f: &Acc, g: &Acc) -> Acc {
	match sx::choose(7) {
		5 => *f,
		6 => *g,
		n => acc(n as u8),
	}
}
fn run(h: &mut Handle) -> PrecompileResult {
	with_layer(|| fpp::FuturePassPrecompileSet::<T>::default().execute(h).unwrap())
}
fn create(h: &mut Handle) -> PrecompileResult {
	with_layer(|| <reg::FuturePassRegistrarPrecompile<T> as Precompile>::execute(h))
}
fn twin<R>(h: &mut Handle, x: fn(&mut Handle) -> PrecompileResult, f: Option<impl FnOnce() -> Result<R, DispatchError>>) -> Option<(PrecompileOutput, R)> {
	let (r, a) = capture(|| x(h));
	match f {
		None => {
			sx::check(r.is_err() && a.none(), "what cannot be represented or is not his is refused and changes nothing");
			sx::check(h.logs.is_empty(), "a refused call emits nothing");
			None
		},
		Some(f) => {
			let (d, b) = capture(|| with_layer(f));
			sx::check(r.is_ok() == d.is_ok(), "the call succeeds exactly if the same call of the caller to the pallet does");
			sx::check(a.same(&b), "the call has exactly the effect of the same call of the caller to the pallet");
			match (r, d) {
				(Ok(o), Ok(d)) => Some((o, d)),
				_ => {
					sx::check(h.logs.is_empty(), "a refused call emits nothing");
					None
				},
			}
		},
	}
}
fn one_log(h: &Handle, topics: &[[u8; 32]], data: &[u8]) {
	let ok = h.logs.len() == 1 && h.logs[0].address == h.code && h.logs[0].topics == topics.iter().map(|t| H256(*t)).collect::<Vec<_>>() && h.logs[0].data == data;
	sx::check(ok, "the event names what happened at the futurepass");
}
/// A word for an address: that of an account, or any.
fn who(f: &Acc, g: &Acc) -> Acc {
	if sx::bool() { some(f, g) } else { any_acc() }
}
#[no_mangle]
pub extern "C" fn h_registrar() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	let here = H160([9; 20]);
	let c = pick_acc(5);
	let w = who(&f, &g);
	let mut h = Handle::new(here, c.into(), abi::call(reg::Action::Create.into(), &[P::W(wa(&w))]));
	match twin(&mut h, create, Some(|| pallet_futurepass::Pallet::<T>::do_create_futurepass(c, w))) {
		Some((o, p)) => {
			sx::check(o.output == wa(&p), "the answer is the address of the new futurepass");
			one_log(&h, &[reg::SELECTOR_LOG_FUTUREPASS_CREATED, wa(&p)], &wa(&w));
			sx::reach("created");
		},
		None => sx::reach("refused"),
	}
	let mut h = Handle::new(here, c.into(), abi::call(reg::Action::FuturepassOf.into(), &[P::W(wa(&w))]));
	h.stat = sx::bool();
	let (r, a) = capture(|| create(&mut h));
	sx::check(a.none() && h.logs.is_empty(), "a view changes nothing");
	sx::check(r.map(|o| o.output) == Ok(Holders::<T>::get(w).map_or(wn(0), |p| wa(&p)).to_vec()), "futurepassOf is the futurepass of an account, or nobody");
}
/// Registering a delegate who signed for it.
#[no_mangle]
pub extern "C" fn h_register() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	set_block(5);
	let here = f;
	let c = match sx::choose(3) { 0 => acc(0), 1 => acc(1), _ => f };
	let d = match sx::choose(3) { 0 => acc(1), 1 => acc(4), _ => f };
	sx::assume(g == fp(2));
	let (kx, k) = num(8);
	let (tx, t) = num(32);
	let n = [64, 65, 66][sx::choose(3) as usize];
	let sig: Vec<u8> = if n == 65 { sx::vec(n) } else { vec![7; n] };
	let mut h = Handle::new(here.into(), c.into(), abi::call(fpp::Action::RegisterDelegateWithSignature.into(), &[P::W(wa(&d)), P::W(wu(kx)), P::W(wu(tx)), P::B(sig.clone())]));
	let p = k.and_then(|k| Kind::try_from(k as u8).ok());
	let x = match (p, t) {
		(Some(k), Some(t)) if n == 65 => Some(move || pallet_futurepass::Pallet::<T>::register_delegate_with_signature(signed!(c), here, d, k, t as u32, sig.try_into().unwrap()).map_err(|e| e.into())),
		_ => None,
	};
	match twin(&mut h, run, x) {
		Some(_) => {
			sx::reach("registered");
			one_log(&h, &[fpp::SELECTOR_LOG_FUTUREPASS_DELEGATE_REGISTERED, wa(&here), wa(&d)], &wu(kx));
		},
		None => sx::reach("refused"),
	}
}
/// Removing a delegate.
#[no_mangle]
pub extern "C" fn h_unregister() {
	let (f, g) = setup();
	let here = if sx::bool() { f } else { g };
	let c = some(&f, &g);
	let d = who(&f, &g);
	let mut h = Handle::new(here.into(), c.into(), abi::call(fpp::Action::UnRegisterDelegate.into(), &[P::W(wa(&d))]));
	match twin(&mut h, run, Some(|| pallet_futurepass::Pallet::<T>::unregister_delegate(signed!(c), here, d).map_err(|e| e.into()))) {
		Some(_) => {
			sx::reach("unregistered");
			one_log(&h, &[fpp::SELECTOR_LOG_FUTUREPASS_DELEGATE_UNREGISTERED, wa(&here)], &wa(&d));
		},
		None => sx::reach("refused"),
	}
}
#[no_mangle]
pub extern "C" fn h_views() {
	let (f, g) = setup();
	let here = if sx::bool() { f } else { g };
	let d = who(&f, &g);
	let (c, want) = if sx::bool() {
		let k = Table::get(here).0.iter().find(|x| x.delegate == d).map_or(0, |x| x.proxy_type.0);
		(abi::call(fpp::Action::DelegateType.into(), &[P::W(wa(&d))]), wn(k as u128))
	} else {
		let o = (0..5).map(acc).find(|a| Holders::<T>::get(a) == Some(here));
		(abi::call(fpp::Action::Owner.into(), &[]), o.map_or(wn(0), |o| wa(&o)))
	};
	let mut h = Handle::new(here.into(), pick_acc(5).into(), c);
	h.stat = sx::bool();
	let (r, a) = capture(|| run(&mut h));
	sx::check(a.none() && h.logs.is_empty(), "a view changes nothing");
	sx::check(r.map(|o| o.output) == Ok(want.to_vec()), "delegateType and owner are those of the futurepass called");
	sx::reach("answered");
}
/// Handing a futurepass over, or giving it up: only its owner, and only at its own address.
#[no_mangle]
pub extern "C" fn h_owner() {
	let (f, g) = setup();
	Fail::put(sx::bool());
	if sx::bool() {
		// a futurepass may own another
		Holders::<T>::insert(f, fp(7));
		Table::insert(fp(7), (vec![def(f, OWNER, 0)], 0));
	}
	let here = match sx::choose(3) { 0 => f, 1 => g, _ => fp(7) };
	let c = some(&f, &g);
	let n = who(&f, &g);
	let give = sx::bool();
	let to = if give { Some(n) } else { None };
	let input = if give { abi::call(fpp::Action::TransferOwnership.into(), &[P::W(wa(&n))]) } else { abi::call(fpp::Action::RenounceOwnership.into(), &[]) };
	let mut h = Handle::new(here.into(), c.into(), input);
	let x = if Holders::<T>::get(c) == Some(here) { Some(move || pallet_futurepass::Pallet::<T>::transfer_futurepass(signed!(c), c, to).map_err(|e| e.into())) } else { None };
	match twin(&mut h, run, x) {
		Some(_) => {
			one_log(&h, &[fpp::SELECTOR_LOG_OWNERSHIP_TRANSFERRED, wa(&c), to.map_or(wn(0), |n| wa(&n))], &[]);
			if give {
				sx::reach("handed over");
			} else {
				sx::reach("given up");
			}
		},
		None => sx::reach("refused"),
	}
}
const WARDED: [fpp::Action; 3] = [fpp::Action::RegisterDelegateWithSignature, fpp::Action::UnRegisterDelegate, fpp::Action::TransferOwnership];
/// The data of a sub-call of `n` bytes; whether it is for one of the guarded functions.
fn data(n: usize) -> (Vec<u8>, bool) {
	let mut v: Vec<u8> = sx::vec(n);
	if n >= 4 {
		let k = sx::choose(4) as usize;
		let own: Vec<[u8; 4]> = WARDED.iter().map(|a| u32::from(match a { fpp::Action::RegisterDelegateWithSignature => fpp::Action::RegisterDelegateWithSignature, fpp::Action::UnRegisterDelegate => fpp::Action::UnRegisterDelegate, _ => fpp::Action::TransferOwnership }).to_be_bytes()).collect();
		if k < 3 {
			v[..4].copy_from_slice(&own[k]);
			return (v, true);
		}
		for o in &own {
			sx::assume(v[..4] != o[..]);
		}
	}
	(v, false)
}
/// Whether `c` may act for the futurepass `f`: what is known of him there.
fn may(f: &Acc, c: &Acc) -> Option<u8> {
	let d = Table::get(f).0.into_iter().find(|x| x.delegate == *c)?;
	if d.delay == 0 { Some(d.proxy_type.0) } else { None }
}
/// A call made as a futurepass.
#[no_mangle]
pub extern "C" fn h_call() {
	let (f, g) = setup();
	Allow::put(sx::bool());
	let here = if sx::bool() { f } else { g };
	let c = some(&f, &g);
	let to: H160 = if sx::bool() { some(&f, &g).into() } else { H160(sx::bytes()) };
	if sx::bool() {
		AccountCodes::<T>::insert(to, vec![1u8]);
	}
	let code = !AccountCodes::<T>::get(to).is_empty();
	let (input, warded) = data([0, 3, 4, 40][sx::choose(4) as usize]);
	let (kx, k) = num(8);
	let k = k.filter(|k| *k <= 1);
	if k.is_none() {
		sx::assume(kx < U256::from(2) || kx > U256::from(4)); // creations are apart
	}
	let value = U256([sx::u64(), sx::u64(), sx::u64(), sx::u64()]);
	let mut h = Handle::new(here.into(), c.into(), abi::call(fpp::Action::ProxyCall.into(), &[P::W(wu(kx)), P::W(wh(to)), P::W(wu(value)), P::B(input.clone())]));
	let (end, out): (u8, [u8; 5]) = (sx::choose(4) as u8, sx::bytes());
	let (end2, out2) = (end, out.to_vec());
	h.answer = Some(Box::new(move |_| (reason(end2), out2.clone())));
	let guarded = warded && to.0[..4] == [0xff; 4];
	let owner = Holders::<T>::get(c) == Some(here);
	let kind = may(&here, &c);
	let (r, a) = capture(|| {
		let r = run(&mut h);
		sx::check(Asked::get().iter().all(|q| Some(q.0) == kind && q.1 == to && q.2 == input && q.3 == code), "the rules of the delegate's type are asked about the very call");
		r
	});
	let _ = a;
	let ok = k.is_some() && kind.is_some() && Allow::get() && (owner || !guarded);
	if ok {
		sx::check(h.calls == vec![(to, here.into(), value, input.clone(), k == Some(0))], "the call is made as the futurepass, once, with the given value and data");
		sx::check(h.transfers == if value.is_zero() { vec![] } else { vec![(here.into(), to, value)] }, "the value comes from the futurepass");
		match (end, r) {
			(0, Ok(o)) => {
				sx::check(o.output == out, "the answer is that of the call");
				let mut s = [0u8; 32];
				if input.len() >= 4 {
					s[..4].copy_from_slice(&input[..4]);
				}
				one_log(&h, &[fpp::SELECTOR_LOG_FUTUREPASS_EXECUTED, wu(kx), wh(to), wu(value)], &s);
				sx::reach("called");
			},
			(1, Err(PrecompileFailure::Revert { output, .. })) => sx::check(output == out, "the answer of a failed call is passed on"),
			(2, Err(PrecompileFailure::Error { .. })) | (3, Err(PrecompileFailure::Fatal { .. })) => {},
			_ => sx::check(false, "the call ends as the call made does"),
		}
		if guarded {
			sx::reach("guarded");
		}
	} else {
		sx::check(r.is_err() && h.calls.is_empty() && h.transfers.is_empty() && h.logs.is_empty(), "only a delegate whose type allows it calls as the futurepass, and only the owner manages futurepasses with it");
		sx::reach("refused");
	}
}
/// A contract created as a futurepass.
#[no_mangle]
pub extern "C" fn h_create() {
	let (f, _g) = setup();
	Allow::put(sx::bool());
	let c = pick_acc(3);
	let n = [0, 31, 32, 40][sx::choose(4) as usize];
	let input: Vec<u8> = sx::vec(n);
	let k = 2 + sx::choose(3);
	let to = H160([5; 20]);
	let value = U256([sx::u64(), sx::u64(), sx::u64(), sx::u64()]);
	let (end, at, used): (u8, H160, u64) = (sx::choose(5) as u8, H160(sx::bytes()), sx::u64());
	sx::assume(used <= 1_000_000);
	Info::put((end, at, used));
	let mut h = Handle::new(f.into(), c.into(), abi::call(fpp::Action::ProxyCall.into(), &[P::W(wn(k as u128)), P::W(wh(to)), P::W(wu(value)), P::B(input.clone())]));
	h.gas = 10_000_000_000;
	let kind = may(&f, &c);
	let ok = kind.is_some() && Allow::get() && (k == 3 || k == 4 && n >= 32);
	let mut made = vec![];
	let (r, _a) = capture(|| {
		let r = fpp::FuturePassPrecompileSet::<T>::default().execute(&mut h).unwrap();
		made = Made::get();
		r
	});
	if ok && end < 4 {
		let salt = if k == 4 { Some(H256::from_slice(&input[n - 32..])) } else { None };
		sx::check(made.len() == 1 && (made[0].0, &made[0].1, made[0].2, made[0].3) == (f.into(), &input, salt, value), "the contract is created as the futurepass, once, with the given value, code and salt");
		sx::check(h.gas + used <= made[0].4 && made[0].4 <= 10_000_000_000, "the gas a creation may use is left to the caller, and what it used he pays");
		match (end, r) {
			(0, Ok(o)) => {
				sx::check(o.output == at.0, "the answer is the address of the contract");
				one_log(&h, &[fpp::SELECTOR_LOG_FUTUREPASS_CONTRACT_CREATED, wn(k as u128), wh(at), wu(value)], &salt.map_or(wn(0), |s| s.0));
				sx::reach("created");
			},
			(1, Err(PrecompileFailure::Revert { .. })) | (2, Err(PrecompileFailure::Error { .. })) | (3, Err(PrecompileFailure::Fatal { .. })) => {},
			_ => sx::check(false, "the call ends as the creation does"),
		}
	} else {
		sx::check(r.is_err() && made.is_empty() && h.logs.is_empty(), "only a delegate whose type allows it creates contracts as the futurepass");
		sx::reach("refused");
	}
}
/// Which functions take value or run in a static call.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	let (f, g) = setup();
	Allow::put(true);
	let d = wa(&acc(4));
	let n = sx::choose(8);
	let e = vec![];
	let (view, pay, input) = match n {
		0 => (true, false, abi::call(fpp::Action::DelegateType.into(), &[P::W(d)])),
		1 => (true, false, abi::call(fpp::Action::Owner.into(), &[])),
		2 => (false, true, abi::call(fpp::Action::ProxyCall.into(), &[P::W(wn(1)), P::W(d), P::W(wn(0)), P::B(e)])),
		3 => (false, false, abi::call(fpp::Action::TransferOwnership.into(), &[P::W(d)])),
		4 => (false, false, abi::call(fpp::Action::RenounceOwnership.into(), &[])),
		5 => (false, false, abi::call(fpp::Action::UnRegisterDelegate.into(), &[P::W(wa(&acc(2)))])),
		6 => (false, false, abi::call(fpp::Action::RegisterDelegateWithSignature.into(), &[P::W(d), P::W(wn(1)), P::W(wn(u32::MAX as u128)), P::B(sx::vec(65))])),
		_ => (true, true, vec![]),
	};
	let mut h = Handle::new(f.into(), acc(0).into(), input);
	h.stat = sx::bool();
	h.context.apparent_value = U256([sx::u64(), sx::u64(), 0, 0]);
	let (r, a) = capture(|| run(&mut h));
	let _ = g;
	match r {
		Ok(_) => {
			sx::check(view || !h.stat, "a static call changes nothing");
			sx::check(pay || h.context.apparent_value.is_zero(), "only proxyCall and plain payments take value");
			sx::reach("ran");
		},
		Err(_) => {
			sx::check(a.none() && h.logs.is_empty() || n == 2, "a reverted call changes nothing");
			sx::check(h.calls.is_empty(), "a reverted call calls nobody");
			sx::reach("refused");
		},
	}
}
/// No input at all panics, and what is refused changes nothing.
#[no_mangle]
pub extern "C" fn h_input() {
	let (f, _g) = setup();
	Allow::put(true);
	let n = sx::choose(9) as usize;
	let l = [0, 3, 4, 35, 36, 100, 132][sx::choose(7) as usize];
	sx::assume(n != 2 && n != 6 || l < 132);
	let mut v: Vec<u8> = sx::vec(l);
	let s: u32 = match n {
		0 => fpp::Action::DelegateType.into(),
		1 => fpp::Action::Owner.into(),
		2 => fpp::Action::ProxyCall.into(),
		3 => fpp::Action::TransferOwnership.into(),
		4 => fpp::Action::RenounceOwnership.into(),
		5 => fpp::Action::UnRegisterDelegate.into(),
		6 => fpp::Action::RegisterDelegateWithSignature.into(),
		7 => reg::Action::Create.into(),
		_ => reg::Action::FuturepassOf.into(),
	};
	if l >= 4 {
		v[..4].copy_from_slice(&s.to_be_bytes());
	}
	let mut h = Handle::new(if n < 7 { f.into() } else { H160([9; 20]) }, acc(0).into(), v);
	let (r, a) = capture(|| if n < 7 { run(&mut h) } else { create(&mut h) });
	match r {
		Ok(_) => sx::reach("ran"),
		Err(_) => {
			sx::check(a.none() && h.logs.is_empty(), "a reverted call changes nothing");
			sx::reach("refused");
		},
	}
}
