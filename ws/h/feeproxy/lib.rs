#![allow(non_snake_case, deprecated)]
use frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use frame_support::traits::{fungibles::Inspect, InstanceFilter};
use hrt::abi::{self, wh, wn, P};
use hrt::*;
use hrt::{calls, evm, konst, prefix, signed, sys};
use pallet_fee_proxy::{Pallet, *};
use pallet_transaction_payment::OnChargeTransaction;
use precompile_utils::{Address, ErcIdConversion};
use seed_pallet_common::*;
use sp_core::{H160, H256, U256};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use sp_runtime::{DispatchError, DispatchResult, Perbill};
use vstub::evm::*;
use vstub::system::RawOrigin;

calls!(T, RtCall { Fee: pallet_fee_proxy::Call<T>, Fp: pallet_futurepass::Call<T>, Ev: vstub::evm::Call<T>, Dx: pallet_dex::Call<T> });
sys!(T, RtCall);
evm!(T, Chain);
konst! {
	Gas_: u32 = 2;
	Native: u32 = 1;
	DexFee: (u32, u32) = (3, 1000);
	Limit: u32 = 3;
	BurnId: PalletId = PalletId(*b"burnaddr");
	Dec: u8 = 18;
	DefFee: Option<PalletId> = None;
	Ed: u128 = 1;
	AssetDep: u128 = 0;
	Para: u32 = 100;
	MaxHolds: u32 = 2;
	Pid: PalletId = PalletId(*b"assetext");
}
prefix!(PBase);
prefix!(PBaseFail);
prefix!(PRan);
prefix!(PBlock);
prefix!(PDel);
/// What the ordinary way of charging was told: who, fee, tip.
type Base = StorageValue<PBase, Vec<(Acc, u128, u128)>, ValueQuery>;
type BaseFail = StorageValue<PBaseFail, bool, ValueQuery>;
type Run = (H160, Option<H160>, Vec<u8>, Option<H256>, U256, u64, Option<U256>, Option<U256>);
/// The transactions that were run.
type Ran = StorageValue<PRan, Vec<Run>, ValueQuery>;
/// Signer and target that maintenance mode stops.
type Block = StorageValue<PBlock, (Option<Acc>, Option<H160>), ValueQuery>;
type Dele = StorageMap<PDel, (), Acc, Vec<Acc>, ValueQuery>;

impl pallet_balances::Config for T {
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type ReserveIdentifier = [u8; 8];
}
impl pallet_assets::Config for T {
	type Balance = u128;
	type AssetId = u32;
	type AssetIdParameter = u32;
	type Currency = pallet_balances::Pallet<T>;
	type AssetDeposit = AssetDep;
	type WeightInfo = ();
}
pub struct Sub;
impl OnNewAssetSubscriber<u32> for Sub {
	fn on_asset_create(_id: u32, _p: &[u8; 4]) {}
}
impl pallet_assets_ext::Config for T {
	type RuntimeEvent = ();
	type ParachainId = Para;
	type MaxHolds = MaxHolds;
	type NativeAssetId = Native;
	type OnNewAssetSubscription = Sub;
	type PalletId = Pid;
	type WeightInfo = ();
}
impl pallet_dex::Config for T {
	type RuntimeEvent = ();
	type GetExchangeFee = DexFee;
	type TradingPathLimit = Limit;
	type DEXBurnPalletId = BurnId;
	type LPTokenDecimals = Dec;
	type DefaultFeeTo = DefFee;
	type WeightInfo = ();
	type MultiCurrency = pallet_assets_ext::Pallet<T>;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct Kind(u8);
impl From<Kind> for u8 {
	fn from(k: Kind) -> u8 {
		k.0
	}
}
impl InstanceFilter<RtCall> for Kind {
	fn filter(&self, _c: &RtCall) -> bool {
		true
	}
}
pub struct Proxies;
impl pallet_futurepass::ProxyProvider<T> for Proxies {
	fn exists(f: &Acc, d: &Acc, _k: Option<Kind>) -> bool {
		Dele::get(f).contains(d)
	}
	fn owner(_f: &Acc) -> Option<Acc> {
		unimplemented!()
	}
	fn delegates(_f: &Acc) -> Vec<(Acc, Kind)> {
		unimplemented!()
	}
	fn add_delegate(_: &Acc, _: &Acc, _: &Acc, _: &u8) -> DispatchResult {
		unimplemented!()
	}
	fn remove_delegate(_: &Acc, _: &Acc, _: &Acc) -> DispatchResult {
		unimplemented!()
	}
	fn remove_account(_: &Acc, _: &Acc) -> DispatchResult {
		unimplemented!()
	}
	fn proxy_call(_: vstub::system::Origin<Acc, RtCall>, _: Acc, _: RtCall) -> DispatchResult {
		unimplemented!()
	}
}
pub struct Blacklist;
impl ExtrinsicChecker for Blacklist {
	type Call = RtCall;
	type Extra = ();
	type Result = bool;
	fn check_extrinsic(_: &RtCall, _: &()) -> bool {
		false
	}
}
impl pallet_futurepass::Config for T {
	type RuntimeEvent = ();
	type Proxy = Proxies;
	type RuntimeCall = RtCall;
	type BlacklistedCallValidator = Blacklist;
	type ApproveOrigin = frame_system::EnsureRoot<Acc>;
	type ProxyType = Kind;
	type WeightInfo = ();
}
pub struct Charge;
impl OnChargeTransaction<T> for Charge {
	type Balance = u128;
	type LiquidityInfo = u128;
	fn withdraw_fee(who: &Acc, _c: &RtCall, _i: &DispatchInfo, fee: u128, tip: u128) -> Result<u128, TransactionValidityError> {
		if BaseFail::get() {
			return Err(InvalidTransaction::Payment.into());
		}
		Base::mutate(|v| v.push((*who, fee, tip)));
		Ok(fee)
	}
	fn correct_and_deposit_fee(who: &Acc, _i: &DispatchInfo, _p: &PostDispatchInfo, fee: u128, tip: u128, paid: u128) -> Result<(), TransactionValidityError> {
		if BaseFail::get() {
			return Err(InvalidTransaction::Payment.into());
		}
		Base::mutate(|v| v.push((*who, fee, tip ^ paid)));
		Ok(())
	}
}
impl pallet_transaction_payment::Config for T {
	type OnChargeTransaction = Charge;
}
const ERC20: [u8; 4] = [0xCC; 4];
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
pub struct Guard;
impl MaintenanceCheckEVM<T> for Guard {
	fn validate_evm_call(s: &Acc, t: &H160) -> bool {
		Block::get().0 != Some(*s) && Block::get().1 != Some(*t)
	}
	fn validate_evm_create(s: &Acc) -> bool {
		Block::get().0 != Some(*s)
	}
}
impl pallet_fee_control::Config for T {
	type RuntimeEvent = ();
	type WeightInfo = ();
	type FeeConfig = ();
}
type Control = pallet_fee_control::Pallet<T>;
impl pallet_fee_proxy::Config for T {
	type RuntimeCall = RtCall;
	type RuntimeEvent = ();
	type PalletsOrigin = RawOrigin<Acc>;
	type FeeAssetId = Gas_;
	type OnChargeTransaction = Charge;
	type ErcIdConversion = T;
	type EVMBaseFeeProvider = Control;
	type MaintenanceChecker = Guard;
}
/// Runs the transactions the fee proxy passes on.
pub struct Chain;
type W = Option<vstub::weights::Weight>;
type List = Vec<(H160, Vec<H256>)>;
fn ran(x: Run) {
	Ran::mutate(|v| v.push(x))
}
impl Runner<T> for Chain {
	type Error = vstub::evm::Error<T>;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: List, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<(), RunnerError<Self::Error>> {
		Ok(())
	}
	fn call(a: H160, b: H160, c: Vec<u8>, d: U256, e: u64, f: Option<U256>, g: Option<U256>, _h: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>> {
		ran((a, Some(b), c, None, d, e, f, g));
		Ok(CallInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: vec![] })
	}
	fn create(a: H160, c: Vec<u8>, d: U256, e: u64, f: Option<U256>, g: Option<U256>, _h: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		ran((a, None, c, None, d, e, f, g));
		Ok(CreateInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: H160::zero(), used_gas: Default::default() })
	}
	fn create2(a: H160, c: Vec<u8>, s: H256, d: U256, e: u64, f: Option<U256>, g: Option<U256>, _h: Option<U256>, _: List, _: bool, _: bool, _: W, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		ran((a, None, c, Some(s), d, e, f, g));
		Ok(CreateInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: H160::zero(), used_gas: Default::default() })
	}
}
type Fp = FeePreferencesRunner<T, T, pallet_futurepass::Pallet<T>>;
type Dex = pallet_dex::Pallet<T>;
type Ext = pallet_assets_ext::Pallet<T>;
const GAS: u32 = 2;
const TOK: u32 = 20;
const LP: u32 = 100;
fn asset(a: u32) {
	pallet_assets::Asset::<T>::insert(
		a,
		pallet_assets::AssetDetails { owner: acc(8), issuer: acc(8), admin: acc(8), freezer: acc(8), supply: 1 << 100, min_balance: 1, is_sufficient: true, status: pallet_assets::AssetStatus::Live },
	);
}
fn give(a: u32, w: &Acc, b: u128) {
	pallet_assets::Account::<T>::insert(a, w, pallet_assets::AssetAccount { balance: b, frozen: false });
}
/// A pool of the gas token and another; the accounts hold any amounts of the other, and no or some gas.
fn world(r: (u128, u128)) {
	for a in [GAS, TOK, LP] {
		asset(a);
	}
	for k in [0, 3] {
		let b = sx::u128();
		sx::assume(b > 0 && b < 1 << 90);
		give(TOK, &acc(k), b);
		if sx::bool() {
			give(GAS, &acc(k), 5);
		}
	}
	let p = pallet_dex::types::TradingPair::new(GAS, TOK);
	pallet_dex::LiquidityPool::<T>::insert(p, r);
	pallet_dex::TradingPairLPToken::<T>::insert(p, Some(LP));
	pallet_dex::TradingPairStatuses::<T>::insert(p, pallet_dex::TradingPairStatus::Enabled);
	let w: Acc = p.pool_address();
	give(GAS, &w, r.0);
	give(TOK, &w, r.1);
	pallet_assets::Metadata::<T>::insert(GAS, pallet_assets::AssetMetadata { name: Default::default(), symbol: Default::default(), decimals: 6, is_frozen: false });
}
/// 18 to 6 decimals, rounded up.
fn drops(x: U256) -> u128 {
	let u = U256::from(1_000_000_000_000u64);
	let q = (x / u).as_u128();
	if (x % u).is_zero() { q } else { q + 1 }
}
/// Charging the fee of a transaction: who pays, and what is swapped for it.
#[no_mangle]
pub extern "C" fn h_charge() {
	world((1_000_000_000_000, 3_000_000_000_000));
	let (c, f) = (acc(0), acc(3));
	if sx::bool() {
		Dele::insert(f, vec![acc(5), c]);
	} else {
		Dele::insert(f, vec![acc(5)]);
	}
	let fee = sx::u128();
	sx::assume(fee > 0 && fee < 1 << 60);
	let tip = sx::u128();
	BaseFail::put(sx::bool());
	let asset = match sx::choose(3) { 0 => TOK, 1 => GAS, _ => 77 };
	let max = sx::u128();
	let gas = sx::u64();
	let price = [U256::from(10_000_000_000_000u64), U256::from(1), U256::MAX][sx::choose(3) as usize];
	if price != U256::MAX {
		sx::assume(gas > 0 && gas < 1 << 40);
	}
	let ev = || RtCall::Ev(vstub::evm::Call::call { source: c.into(), target: H160([7; 20]), input: vec![], value: U256::zero(), gas_limit: gas, max_fee_per_gas: price, max_priority_fee_per_gas: None, nonce: None, access_list: vec![] });
	let by = |x: RtCall| RtCall::Fp(pallet_futurepass::Call::proxy_extrinsic { futurepass: f, call: Box::new(x) });
	let pref = |x: RtCall| RtCall::Fee(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: asset, max_payment: max, call: Box::new(x) });
	// (call, swapped for, through the futurepass, with an EVM call)
	let (call, swap, proxied, with_evm) = match sx::choose(8) {
		0 => (RtCall::None, false, false, false),
		1 => (ev(), false, false, false),
		2 => (by(RtCall::None), false, true, false),
		3 => (pref(RtCall::None), true, false, false),
		4 => (pref(ev()), true, false, true),
		5 => (pref(by(RtCall::None)), true, true, false),
		6 => (pref(by(ev())), true, true, true),
		_ => (by(pref(RtCall::None)), false, true, false),
	};
	let payer = if proxied && Dele::get(f).contains(&c) { f } else { c };
	let (r, a) = capture(|| with_layer(|| <Pallet<T> as OnChargeTransaction<T>>::withdraw_fee(&c, &call, &Default::default(), fee, tip).map_err(|_| DispatchError::Other("fee"))));
	let floor = U256::from(7_500_000_000_000u64);
	let (d, b) = capture(|| {
		with_layer(|| {
			if swap {
				let mut want = fee;
				if with_evm && price >= floor && price != U256::MAX {
					want += drops(price * U256::from(gas));
				}
				if Ext::balance(GAS, &payer) == 0 {
					want += 1;
				}
				Dex::do_swap_with_exact_target(&payer, want, max, &[asset, GAS], payer, None)?;
			}
			Charge::withdraw_fee(&payer, &call, &Default::default(), fee, tip).map_err(|_| DispatchError::Other("fee"))
		})
	});
	sx::check(r.is_ok() == d.is_ok(), "a fee is charged exactly if it can be swapped for and paid");
	sx::check(a.same(&b), "the payer swaps for exactly the fee, and is charged it once");
	match (r.is_ok(), swap) {
		(true, true) => sx::reach("swapped and charged"),
		(true, false) => sx::reach("charged"),
		_ => sx::reach("refused"),
	}
	if r.is_ok() && payer == f {
		sx::reach("the futurepass pays");
	}
}
/// What a transaction did not use goes through the ordinary way of charging.
#[no_mangle]
pub extern "C" fn h_correct() {
	let (w, fee, tip, paid) = (any_acc(), sx::u128(), sx::u128(), sx::u128());
	BaseFail::put(sx::bool());
	let r = <Pallet<T> as OnChargeTransaction<T>>::correct_and_deposit_fee(&w, &Default::default(), &Default::default(), fee, tip, paid);
	sx::check(r.is_ok() != BaseFail::get(), "the settlement succeeds as the ordinary one does");
	sx::check(Base::get() == if r.is_ok() { vec![(w, fee, tip ^ paid)] } else { vec![] }, "the fee is settled once, with what was withdrawn");
	sx::reach("settled");
}
/// A call with fee preferences is the call itself.
#[no_mangle]
pub extern "C" fn h_call() {
	DispatchFail::put(sx::bool());
	unsafe { RECORD = true }
	let c = pick_acc(2);
	let asset = sx::u32();
	let o = match sx::choose(3) { 0 => signed!(c), 1 => RawOrigin::Root.into(), _ => RawOrigin::None.into() };
	let nested = sx::bool();
	let inner = if nested { RtCall::Fee(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: TOK, max_payment: 1, call: Box::new(RtCall::None) }) } else { RtCall::None };
	let by = matches!(vstub::system::ensure_signed(Clone::clone(&o)), Ok(_));
	let r = Pallet::<T>::call_with_fee_preferences(o, asset, sx::u128(), Box::new(inner.clone()));
	let ok = by && asset != GAS && !nested;
	if ok {
		sx::check(*dispatched() == vec![(RawOrigin::Signed(c), inner)], "the call is made once, by its caller");
		sx::check(r.is_ok() != DispatchFail::get(), "the result is that of the call");
		sx::reach("called");
	} else {
		sx::check(r.is_err() && dispatched().is_empty(), "nobody but a signer, no gas token, no nesting");
		sx::reach("refused");
	}
}
fn fees(v: u8) -> Option<U256> {
	match v {
		0 => None,
		1 => Some(U256::from(sx::u64())),
		_ => Some(U256([sx::u64(), sx::u64(), sx::u64(), sx::u64()])),
	}
}
/// What a transaction may cost, in the units of the gas token.
#[no_mangle]
pub extern "C" fn h_price() {
	pallet_assets::Metadata::<T>::insert(GAS, pallet_assets::AssetMetadata { name: Default::default(), symbol: Default::default(), decimals: 6, is_frozen: false });
	let base = [U256::zero(), U256::from(7_500_000_000_000u64), U256::MAX][sx::choose(3) as usize];
	let gas = sx::u64();
	let max = fees(sx::choose(3) as u8);
	let tip = fees(sx::choose(2) as u8);
	let r = get_fee_preferences_data::<T, T, pallet_futurepass::Pallet<T>>(gas, base, max, tip, TOK);
	match r {
		Ok(d) => {
			sx::reach("priced");
			sx::check(d.path == vec![TOK, GAS], "the payment asset is swapped for the gas token");
			let t = U256::from(gas) * (base + tip.unwrap_or_default());
			let m = U256::from(gas) * max.unwrap_or(base * 2 + tip.unwrap_or_default());
			sx::check(t <= m, "the fee is at most the most the sender offers");
			sx::check(d.total_fee_scaled == drops(t) && d.max_fee_scaled == drops(m), "fees are rounded up to the gas token's unit");
		},
		Err(_) => sx::reach("refused"),
	}
}
fn proxy_address() -> H160 {
	H160::from_low_u64_be(precompile_utils::constants::FEE_PROXY_ADDRESS)
}
/// An EVM call, to the fee proxy or to anything else.
#[no_mangle]
pub extern "C" fn h_run() {
	world((1_000_000_000_000, 3_000_000_000_000));
	let who = if sx::bool() { Some(acc(if sx::bool() { 0 } else { 1 })) } else { None };
	let (t1, t2) = (H160([0x71; 20]), H160([0x72; 20]));
	let stop = match sx::choose(4) { 0 => None, 1 => Some(t1), 2 => Some(t2), _ => Some(proxy_address()) };
	Block::put((who, stop));
	let c = acc(0);
	let gas = [1, 21_000, 12_345_678][sx::choose(3) as usize];
	let price = match sx::choose(4) { 0 => None, 1 => Some(U256::from(10_000_000_000_000u64)), 2 => Some(U256::one()), _ => Some(U256::MAX) };
	let tip = match sx::choose(2) { 0 => None, _ => Some(U256::from(1_500_000_000u64)) };
	let value = U256::from(sx::u128());
	let data: Vec<u8> = sx::vec(5);
	let (aw, a) = match sx::choose(3) { 0 => (wh(T::runtime_id_to_evm_id(TOK, &ERC20).into()), Some(TOK)), 1 => (wh(T::runtime_id_to_evm_id(77, &ERC20).into()), Some(77)), _ => (wh(H160([0xAA; 20])), None) };
	let fee = sx::bool();
	let (target, input) = if fee {
		if sx::bool() {
			let s = u32::from_be_bytes(precompile_utils::constants::FEE_FUNCTION_SELECTOR.try_into().unwrap());
			(proxy_address(), abi::call(s, &[P::W(aw), P::W(wh(t2)), P::B(data.clone())]))
		} else {
			let s = u32::from_be_bytes(precompile_utils::constants::FEE_FUNCTION_SELECTOR_DEPRECATED.try_into().unwrap());
			(proxy_address(), abi::call(s, &[P::W(aw), P::W(wn(5)), P::W(wh(t2)), P::B(data.clone())]))
		}
	} else {
		(t1, data.clone())
	};
	let (r, x) = capture(|| with_layer(|| Fp::call(c.into(), target, input, value, gas, price, tip, None, vec![], true, true, None, None, &EvmConfig::london()).map(|_| ()).map_err(|_| DispatchError::Other("evm"))));
	let to = if fee { t2 } else { t1 };
	let blocked = who == Some(c) || stop == Some(target) || stop == Some(to);
	let (d, y) = capture(|| {
		with_layer(|| -> DispatchResult {
			if blocked {
				return Err(DispatchError::Other("maintenance"));
			}
			if fee {
				let a = a.ok_or(DispatchError::Other("asset"))?;
				let base = U256::from(7_500_000_000_000u64);
				let due = base + tip.unwrap_or_default();
				let most = price.unwrap_or(base + due);
				if most < due || most == U256::MAX {
					return Err(DispatchError::Other("price"));
				}
				let (due, most) = (drops(due * U256::from(gas)), drops(most * U256::from(gas)));
				let pay = Dex::get_amounts_in(most, &[a, GAS])?[0];
				let least = if most - due == 1 { most } else { due };
				Dex::do_swap_with_exact_supply(&c, pay, least, &[a, GAS], c, None)?;
			}
			ran((c.into(), Some(to), data.clone(), None, value, gas, price, tip));
			Ok(())
		})
	});
	sx::check(r.is_ok() == d.is_ok(), "a call runs exactly if its sender can pay in his asset and nothing about it is blocked");
	sx::check(x.same(&y), "the sender swaps what the fee may cost at most, and the call he named runs as sent");
	match (r.is_ok(), fee) {
		(true, true) => sx::reach("ran with fee preferences"),
		(true, false) => sx::reach("ran"),
		_ => sx::reach("refused"),
	}
}
/// Contract creations; and inputs to the fee proxy that mean nothing.
#[no_mangle]
pub extern "C" fn h_create() {
	world((1_000_000_000_000, 3_000_000_000_000));
	Block::put((if sx::bool() { Some(acc(0)) } else { None }, None));
	let blocked = Block::get().0.is_some();
	let c = acc(0);
	let (value, gas, price, tip) = (U256::from(sx::u128()), sx::u64(), fees(sx::choose(3) as u8), fees(sx::choose(2) as u8));
	let k = sx::choose(3);
	let n = if k == 2 { [0, 3, 4, 36, 99, 100][sx::choose(6) as usize] } else { 4 };
	let mut code: Vec<u8> = sx::vec(n);
	let salt = H256(sx::bytes());
	let cfg = EvmConfig::london();
	if k < 2 {
		let r = if k == 0 {
			Fp::create(c.into(), code.clone(), value, gas, price, tip, None, vec![], true, true, None, None, &cfg).is_ok()
		} else {
			Fp::create2(c.into(), code.clone(), salt, value, gas, price, tip, None, vec![], true, true, None, None, &cfg).is_ok()
		};
		sx::check(r != blocked, "creations are stopped for blocked accounts only");
		sx::check(Ran::get() == if r { vec![(c.into(), None, code, if k == 1 { Some(salt) } else { None }, value, gas, price, tip)] } else { vec![] }, "a creation runs as sent");
		if r {
			sx::reach("created");
		} else {
			sx::reach("refused");
		}
	} else {
		if n >= 4 && sx::bool() {
			let s = if sx::bool() { precompile_utils::constants::FEE_FUNCTION_SELECTOR } else { precompile_utils::constants::FEE_FUNCTION_SELECTOR_DEPRECATED };
			code[..4].copy_from_slice(&s[..4]);
		}
		let r = Fp::decode_input(code.clone());
		if let Ok((a, to, x)) = r {
			let s = &code[..4];
			sx::check(s == &precompile_utils::constants::FEE_FUNCTION_SELECTOR[..4] || s == &precompile_utils::constants::FEE_FUNCTION_SELECTOR_DEPRECATED[..4], "only the fee proxy's function is understood");
			let w = if s == &precompile_utils::constants::FEE_FUNCTION_SELECTOR[..4] { 36 } else { 68 };
			sx::check(code[16..20] == ERC20 && code[20..24] == a.to_be_bytes() && code[w + 12..w + 32] == to.0 && x.len() <= n, "asset and target are those named");
			sx::reach("understood");
		} else {
			sx::reach("refused");
		}
	}
}
/// Fees are set by governance only, and count as set.
#[no_mangle]
pub extern "C" fn h_control() {
	let m = sx::u32();
	sx::assume(m <= 1_000_000_000);
	pallet_fee_control::Data::<T>::put(pallet_fee_control::FeeControlFeeConfig { evm_base_fee_per_gas: U256::from(sx::u128()), weight_multiplier: Perbill::from_parts(m), length_multiplier: sx::u128() });
	let d = pallet_fee_control::Data::<T>::get();
	let root = sx::bool();
	let o = if root { RawOrigin::Root.into() } else { signed!(acc(1)) };
	let mut want = d.clone();
	let r = match sx::choose(3) {
		0 => {
			let v = U256([sx::u64(), sx::u64(), sx::u64(), sx::u64()]);
			want.evm_base_fee_per_gas = v;
			Control::set_evm_base_fee(o, v)
		},
		1 => {
			let v = sx::u32();
			sx::assume(v <= 1_000_000_000);
			want.weight_multiplier = Perbill::from_parts(v);
			Control::set_weight_multiplier(o, Perbill::from_parts(v))
		},
		_ => {
			want.length_multiplier = sx::u128();
			Control::set_length_multiplier(o, want.length_multiplier)
		},
	};
	sx::check(r.is_ok() == root, "only governance sets fees");
	let now = if root { want } else { d };
	sx::check(pallet_fee_control::Data::<T>::get() == now, "exactly the one fee is set");
	sx::check(Control::base_fee_per_gas() == now.evm_base_fee_per_gas && <Control as FeeConfig>::evm_base_fee_per_gas() == now.evm_base_fee_per_gas && <Control as vstub::evm::FeeCalculator>::min_gas_price().0 == now.evm_base_fee_per_gas, "the base fee counts as set");
	let w = sx::u64();
	let weight = vstub::weights::Weight::from_parts(w, sx::u64());
	let p = now.weight_multiplier.deconstruct() as u128;
	let x = w as u128 * p;
	let f = Control::weight_to_fee(&weight);
	sx::check(f * 1_000_000_000 < x + 1_000_000_000 && f * 1_000_000_000 + 1_000_000_000 > x, "a weight costs its share");
	let l = Control::length_to_fee(&weight);
	match (w as u128).checked_mul(now.length_multiplier) {
		Some(x) => sx::check(l == x, "a length costs its multiple"),
		None => sx::check(l == u128::MAX, "a fee does not wrap around"),
	}
	sx::reach("set");
}
