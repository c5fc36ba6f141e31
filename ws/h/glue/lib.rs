#![allow(non_snake_case, deprecated, unused_imports)]
use frame_support::traits::tokens::{DepositConsequence, Fortitude, Preservation, Provenance};
use frame_support::traits::{fungible, CallMetadata, Currency, ExistenceRequirement, FindAuthor, GetCallMetadata, Imbalance, InstanceFilter, OnUnbalanced, ReservableCurrency, WithdrawReasons};
use hrt::abi;
use hrt::*;
use hrt::{evm, konst, prefix, signed};
use impls::*;
use pallet_evm_precompiles_futurepass as fpp;
use precompile_utils::prelude::{Address, ErcIdConversion};
use pallet_futurepass::ProxyProvider;
use seed_pallet_common::*;
use sp_core::{H160, H256, U256};
use sp_runtime::traits::{AccountIdConversion, StaticLookup};
use sp_runtime::{DispatchError, DispatchResult};
use std::marker::PhantomData;
use vstub::evm::*;
use vstub::system::RawOrigin;

mod impls {
	use super::*;
	vmacros::items!("/repo/runtime/src/impls.rs", CreateSignedTransaction, SlashImbalanceHandler, OnUnbalanced);
}

mod filter {
	use super::{MaintenanceCheck, RewardDestination, Runtime, RuntimeCall};
	use super::{assets_ as pallet_assets, ethy_ as pallet_ethy, pallet_maintenance_mode, pallet_proxy, staking_ as pallet_staking, xbridge_ as pallet_xrpl_bridge};
	vmacros::items!("/repo/runtime/src/lib.rs"; CallFilter);
}

// ---------------------------------------------------------------- the calls of the runtime
type O = vstub::system::Origin<Acc, RuntimeCall>;
macro_rules! fake {
	($m:ident { $($v:ident { $($f:ident: $t:ty),* }),* }) => {
		pub mod $m {
			use super::*;
			#[derive(Clone, PartialEq, Debug)]
			#[allow(non_camel_case_types)]
			pub enum Call { $($v { $($f: $t),* }),* }
			impl Call {
				pub fn name(&self) -> &'static str { match self { $(Call::$v { .. } => stringify!($v)),* } }
			}
		}
	};
}
fake!(fee { call_with_fee_preferences { payment_asset: u32, max_payment: u128, call: Box<RuntimeCall> } });
/// Where a transaction with a fee preference goes in the end.
static mut HIDDEN: Option<H160> = None;
fake!(pallet_xrpl { transact { encoded_msg: Vec<u8> }, set_door { x: u32 } });
fake!(pallet_nft { set_base_uri { collection_id: u32 }, set_name { collection_id: u32 }, set_royalties_schedule { collection_id: u32 }, set_owner { collection_id: u32 }, mint { collection_id: u32 }, transfer { collection_id: u32 } });
fake!(bal { transfer { dest: Acc, value: u128 }, transfer_keep_alive { dest: Acc, value: u128 }, transfer_all { dest: Acc } });
fake!(assets_ { create { id: u32 }, transfer { id: u32, amount: u128 } });
fake!(ethy_ { submit_challenge { event_claim_id: u64 }, submit_event { event: Vec<u8> } });
fake!(xbridge_ { submit_challenge { transaction_hash: H256 }, submit_transaction { ledger_index: u64 } });
#[derive(Clone, PartialEq, Debug)]
pub enum RewardDestination {
	Staked,
	Stash,
	Controller,
	Account(Acc),
	None,
}
fake!(staking_ { bond { value: u128, payee: RewardDestination }, payout_stakers { validator_stash: Acc, era: u32 }, nominate { x: u32 } });
fake!(other { batch { calls: Vec<RuntimeCall> } });
pub mod pallet_balances {
	pub use super::bal::Call;
	pub use vstub::balances::*;
}
pub mod pallet_fee_proxy {
	use super::*;
	pub use super::fee::Call;
	pub struct FeePreferencesRunner<T, U, P>(PhantomData<(T, U, P)>);
	impl<T, U, P> FeePreferencesRunner<T, U, P> {
		pub fn decode_input(_: Vec<u8>) -> Result<(u32, H160, Vec<u8>), &'static str> {
			unsafe { HIDDEN }.map(|t| (1, t, vec![1, 2, 3, 4])).ok_or("input")
		}
	}
}
pub mod pallet_crowdsale {
	pub enum Error<T> {
		ExtrinsicForbidden,
		_X(std::marker::PhantomData<T>),
	}
	impl<T> From<Error<T>> for sp_runtime::DispatchError {
		fn from(_: Error<T>) -> Self {
			sp_runtime::DispatchError::Other("forbidden")
		}
	}
}
pub mod pallet_doughnut {
	pub enum Error<T> {
		ToppingPermissionDenied,
		_X(std::marker::PhantomData<T>),
	}
	impl<T> From<Error<T>> for sp_runtime::DispatchError {
		fn from(_: Error<T>) -> Self {
			sp_runtime::DispatchError::Other("denied")
		}
	}
}
#[derive(Clone, PartialEq, Debug)]
pub enum RuntimeCall {
	None,
	System(vstub::system::Call<Runtime>),
	Balances(pallet_balances::Call),
	Proxy(pallet_proxy::Call<Runtime>),
	Futurepass(pallet_futurepass::Call<Runtime>),
	FeeProxy(pallet_fee_proxy::Call),
	Xrpl(pallet_xrpl::Call),
	Nft(pallet_nft::Call),
	AssetsExt(pallet_assets_ext::Call<Runtime>),
	EVM(vstub::evm::Call<Runtime>),
	Assets(assets_::Call),
	EthBridge(ethy_::Call),
	XRPLBridge(xbridge_::Call),
	Staking(staking_::Call),
	Utility(other::Call),
}
impl Eq for RuntimeCall {}
impl codec::Encode for RuntimeCall {
	fn encode_to<O: codec::Output + ?Sized>(&self, _o: &mut O) {}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl codec::Decode for RuntimeCall {
	fn decode<I: codec::Input>(_i: &mut I) -> Result<Self, codec::Error> {
		Ok(RuntimeCall::None)
	}
}
impl From<vstub::system::Call<Runtime>> for RuntimeCall {
	fn from(c: vstub::system::Call<Runtime>) -> Self {
		RuntimeCall::System(c)
	}
}
impl From<pallet_proxy::Call<Runtime>> for RuntimeCall {
	fn from(c: pallet_proxy::Call<Runtime>) -> Self {
		RuntimeCall::Proxy(c)
	}
}
impl From<pallet_futurepass::Call<Runtime>> for RuntimeCall {
	fn from(c: pallet_futurepass::Call<Runtime>) -> Self {
		RuntimeCall::Futurepass(c)
	}
}
impl frame_support::traits::IsSubType<pallet_futurepass::Call<Runtime>> for RuntimeCall {
	fn is_sub_type(&self) -> Option<&pallet_futurepass::Call<Runtime>> {
		match self {
			RuntimeCall::Futurepass(c) => Some(c),
			_ => None,
		}
	}
}
impl frame_support::traits::IsSubType<vstub::evm::Call<Runtime>> for RuntimeCall {
	fn is_sub_type(&self) -> Option<&vstub::evm::Call<Runtime>> {
		match self {
			RuntimeCall::EVM(c) => Some(c),
			_ => None,
		}
	}
}
static mut DONE: Vec<(RawOrigin<Acc>, RuntimeCall)> = Vec::new();
fn done() -> &'static mut Vec<(RawOrigin<Acc>, RuntimeCall)> {
	unsafe { &mut *core::ptr::addr_of_mut!(DONE) }
}
impl frame_support::dispatch::Dispatchable for RuntimeCall {
	type RuntimeOrigin = O;
	type Config = ();
	type Info = frame_support::dispatch::DispatchInfo;
	type PostInfo = frame_support::dispatch::PostDispatchInfo;
	fn dispatch(self, o: O) -> frame_support::dispatch::DispatchResultWithPostInfo {
		done().push((o.raw, self));
		if DispatchFail::get() {
			return Err(DispatchError::Other("call").into());
		}
		Ok(().into())
	}
}
impl frame_support::traits::UnfilteredDispatchable for RuntimeCall {
	type RuntimeOrigin = O;
	fn dispatch_bypass_filter(self, o: O) -> frame_support::dispatch::DispatchResultWithPostInfo {
		frame_support::dispatch::Dispatchable::dispatch(self, o)
	}
}
impl frame_support::dispatch::GetDispatchInfo for RuntimeCall {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		Default::default()
	}
}
impl GetCallMetadata for RuntimeCall {
	fn get_call_metadata(&self) -> CallMetadata {
		let (p, f) = match self {
			RuntimeCall::None => ("None", "none"),
			RuntimeCall::System(vstub::system::Call::remark { .. }) => ("System", "remark"),
			RuntimeCall::System(_) => ("System", "set_code"),
			RuntimeCall::Balances(c) => ("Balances", c.name()),
			RuntimeCall::Proxy(_) => ("Proxy", "proxy"),
			RuntimeCall::Futurepass(c) => ("Futurepass", c.__name()),
			RuntimeCall::FeeProxy(c) => ("FeeProxy", c.name()),
			RuntimeCall::Xrpl(c) => ("Xrpl", c.name()),
			RuntimeCall::Nft(c) => ("Nft", c.name()),
			RuntimeCall::AssetsExt(c) => ("AssetsExt", c.__name()),
			RuntimeCall::EVM(_) => ("EVM", "call"),
			RuntimeCall::Assets(c) => ("Assets", c.name()),
			RuntimeCall::EthBridge(c) => ("EthBridge", c.name()),
			RuntimeCall::XRPLBridge(c) => ("XRPLBridge", c.name()),
			RuntimeCall::Staking(c) => ("Staking", c.name()),
			RuntimeCall::Utility(c) => ("Utility", c.name()),
		};
		CallMetadata { pallet_name: p, function_name: f }
	}
}
// ---------------------------------------------------------------- the runtime
hrt::sys!(Runtime, RuntimeCall);
/// What an EVM weighs and costs is not the glue's.
pub struct GasW;
impl vstub::evm::GasWeightMapping for GasW {
	fn gas_to_weight(g: u64, _: bool) -> frame_support::weights::Weight {
		frame_support::weights::Weight::from_parts(g.saturating_mul(1000), 0)
	}
	fn weight_to_gas(w: frame_support::weights::Weight) -> u64 {
		w.ref_time() / 1000
	}
}
impl vstub::evm::FeeCalculator for GasW {
	fn min_gas_price() -> (U256, frame_support::weights::Weight) {
		(U256::from(7_500_000_000_000u64), frame_support::weights::Weight::zero())
	}
}
impl vstub::evm::Config for Runtime {
	type AddressMapping = impls::AddressMapping<Acc>;
	type GasWeightMapping = GasW;
	type FeeCalculator = GasW;
	type Stack = NoStack;
	type Runner = NoStack;
}
konst! {
	Gas_: u32 = 2;
	Native: u32 = 1;
	Ed: u128 = 500_000;
	AssetDep: u128 = 0;
	Para: u32 = 100;
	MaxHolds: u32 = 2;
	Pid: PalletId = PalletId(*b"assetext");
	Pot: PalletId = PalletId(*b"txfeepot");
	SessionsPerEra: u32 = 24;
	BlockHashCount: u32 = 2400;
	SlashPotId: PalletId = PalletId(*b"slashpot");
	ExistentialDeposit: u128 = 500_000;
}
pub type XrpCurrency = pallet_assets_ext::AssetCurrency<Runtime, Gas_>;
type Cur = EvmCurrencyScaler<XrpCurrency>;
type TxFeePot = pallet_tx_fee_pot::Pallet<Runtime>;
type Fees = FutureverseEVMCurrencyAdapter<Cur, TxFeePot>;
type Bal = vstub::balances::Pallet<Runtime>;
impl vstub::balances::Config for Runtime {
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type ReserveIdentifier = [u8; 8];
}
impl pallet_assets::Config for Runtime {
	type Balance = u128;
	type AssetId = u32;
	type AssetIdParameter = u32;
	type Currency = Bal;
	type AssetDeposit = AssetDep;
	type WeightInfo = ();
}
impl pallet_assets_ext::Config for Runtime {
	type RuntimeEvent = ();
	type ParachainId = Para;
	type MaxHolds = MaxHolds;
	type NativeAssetId = Native;
	type OnNewAssetSubscription = OnNewAssetSubscription;
	type PalletId = Pid;
	type WeightInfo = ();
}
impl pallet_tx_fee_pot::Config for Runtime {
	type FeeCurrency = XrpCurrency;
	type StakeCurrency = Bal;
	type TxFeePotId = Pot;
}
impl pallet_futurepass::Config for Runtime {
	type RuntimeEvent = ();
	type Proxy = ProxyPalletProvider;
	type RuntimeCall = RuntimeCall;
	type BlacklistedCallValidator = FuturepassCallValidator;
	type ApproveOrigin = frame_system::EnsureRoot<Acc>;
	type ProxyType = ProxyType;
	type WeightInfo = ();
}
impl vstub::proxy::Config for Runtime {
	type ProxyType = ProxyType;
}
pub type System = frame_system::Pallet<Runtime>;
pub type Futurepass = pallet_futurepass::Pallet<Runtime>;
pub struct UncheckedExtrinsic;
/// Who mines, and what the session and staking pallets answer.
prefix!(PAuthor);
prefix!(PVals);
prefix!(PSess);
prefix!(PEra);
prefix!(PStart);
prefix!(PForce);
prefix!(PPaused);
type Author = StorageValue<PAuthor, H160, ValueQuery>;
type Vals = StorageValue<PVals, Vec<Acc>, ValueQuery>;
type Sess = StorageValue<PSess, u32, ValueQuery>;
type Era_ = StorageValue<PEra, Option<u32>, ValueQuery>;
type Start = StorageMap<PStart, (), u32, u32>;
type Force = StorageValue<PForce, u8, ValueQuery>;
pub struct EVM;
impl EVM {
	pub fn find_author() -> H160 {
		Author::get()
	}
}
pub struct Session;
impl Session {
	pub fn validators() -> Vec<Acc> {
		Vals::get()
	}
	pub fn current_index() -> u32 {
		Sess::get()
	}
}
pub mod pallet_staking {
	pub enum Forcing {
		NotForcing,
		ForceNew,
		ForceNone,
		ForceAlways,
	}
	pub struct ActiveEraInfo {
		pub index: u32,
	}
}
pub struct Staking;
impl Staking {
	pub fn active_era() -> Option<pallet_staking::ActiveEraInfo> {
		Era_::get().map(|index| pallet_staking::ActiveEraInfo { index })
	}
	pub fn eras_start_session_index(e: u32) -> Option<u32> {
		Start::get(e)
	}
	pub fn force_era() -> pallet_staking::Forcing {
		use pallet_staking::Forcing::*;
		match Force::get() {
			0 => NotForcing,
			1 => ForceNew,
			2 => ForceNone,
			_ => ForceAlways,
		}
	}
}
static mut PAUSED: Option<RuntimeCall> = None;
fn pause(c: RuntimeCall) {
	unsafe { PAUSED = Some(c) }
}
pub mod pallet_maintenance_mode {
	use super::*;
	pub struct MaintenanceChecker<T>(PhantomData<T>);
	impl MaintenanceCheck<Runtime> for MaintenanceChecker<Runtime> {
		fn call_paused(c: &RuntimeCall) -> bool {
			unsafe { &*core::ptr::addr_of!(PAUSED) }.as_ref() == Some(c)
		}
	}
}
/// pallet_proxy: the proxies of an account in order, with the deposit reserved for them.
pub mod pallet_proxy {
	use super::*;
	pub use vstub::proxy::ProxyDefinition;
	pub type Def = ProxyDefinition<Acc, ProxyType, u32>;
	pub type Proxies<T> = vstub::proxy::Proxies<T>;
	#[derive(Clone, PartialEq, Debug)]
	#[allow(non_camel_case_types)]
	pub enum Call<T> {
		proxy { real: Acc, force_proxy_type: Option<ProxyType>, call: Box<RuntimeCall> },
		add_proxy { delegate: Acc, proxy_type: ProxyType, delay: u32 },
		_X(PhantomData<T>),
	}
	pub const BASE: u128 = 148_000_000;
	pub const FACTOR: u128 = 21_000_000;
	pub struct Pallet<T>(PhantomData<T>);
	impl Pallet<Runtime> {
		pub fn deposit(n: u32) -> u128 {
			if n == 0 { 0 } else { BASE + FACTOR * n as u128 }
		}
		pub fn find_proxy(real: &Acc, delegate: &Acc, force: Option<ProxyType>) -> Result<Def, DispatchError> {
			vstub::proxy::Pallet::<Runtime>::find_proxy(real, delegate, force)
		}
		fn key(d: &Def) -> (Acc, u8, u32) {
			(d.delegate, d.proxy_type.into(), d.delay)
		}
		fn set(who: &Acc, v: Vec<Def>, old: u128) -> DispatchResult {
			let new = Self::deposit(v.len() as u32);
			if new > old {
				Bal::reserve(who, new - old)?;
			} else if new < old {
				Bal::unreserve(who, old - new);
			}
			if v.is_empty() {
				Proxies::<Runtime>::remove(who);
			} else {
				Proxies::<Runtime>::insert(who, (v, new));
			}
			Ok(())
		}
		pub fn add_proxy_delegate(who: &Acc, delegate: Acc, proxy_type: ProxyType, delay: u32) -> DispatchResult {
			if *who == delegate {
				return Err(DispatchError::Other("NoSelfProxy"));
			}
			let (mut v, old) = Proxies::<Runtime>::get(who);
			let d = ProxyDefinition { delegate, proxy_type, delay };
			let i = v.iter().position(|x| Self::key(x) >= Self::key(&d)).unwrap_or(v.len());
			if v.get(i) == Some(&d) {
				return Err(DispatchError::Other("Duplicate"));
			}
			if v.len() >= 4 {
				return Err(DispatchError::Other("TooMany"));
			}
			v.insert(i, d);
			Self::set(who, v, old)
		}
		pub fn remove_proxy_delegate(who: &Acc, delegate: Acc, proxy_type: ProxyType, delay: u32) -> DispatchResult {
			let (mut v, old) = Proxies::<Runtime>::get(who);
			let d = ProxyDefinition { delegate, proxy_type, delay };
			let i = v.iter().position(|x| x == &d).ok_or(DispatchError::Other("NotFound"))?;
			v.remove(i);
			Self::set(who, v, old)
		}
	}
}
/// What a doughnut's topping allows: the harness decides, and sees what it was asked.
pub mod doughnut_rs {
	use super::*;
	pub struct Topping(pub bool);
	pub static mut ASKED: Vec<(String, String, Vec<trn_pact::types::PactType>)> = Vec::new();
	impl Topping {
		pub fn validate_module(&self, m: &str, f: &str, a: &[trn_pact::types::PactType]) -> Result<(), &'static str> {
			unsafe { (*core::ptr::addr_of_mut!(ASKED)).push((m.into(), f.into(), a.to_vec())) }
			if self.0 { Ok(()) } else { Err("topping") }
		}
	}
}
pub mod trn_pact {
	pub mod types {
		#[derive(Clone, PartialEq, Debug)]
		pub struct Numeric(pub u64);
		#[derive(Clone, PartialEq, Debug)]
		pub struct StringLike(pub Vec<u8>);
		#[derive(Clone, PartialEq, Debug)]
		pub enum PactType {
			Numeric(Numeric),
			StringLike(StringLike),
		}
	}
}
static mut ROUTED: Vec<(u8, H160, Vec<u8>)> = Vec::new();
macro_rules! sub {
	($($m:ident $n:expr, $id:expr;)*) => { $(pub mod $m {
		use super::*;
		pub struct Pallet<T>(PhantomData<T>);
		pub struct At;
		impl frame_support::traits::Get<PalletId> for At { fn get() -> PalletId { PalletId(*$id) } }
		pub struct From_;
		impl frame_support::traits::Get<H160> for From_ { fn get() -> H160 { H160([$n; 20]) } }
		impl EthereumEventSubscriber for Pallet<Runtime> {
			type Address = At;
			type SourceAddress = From_;
			fn on_event(s: &H160, d: &[u8]) -> Result<frame_support::weights::Weight, (frame_support::weights::Weight, DispatchError)> {
				unsafe { (*core::ptr::addr_of_mut!(ROUTED)).push(($n, *s, d.to_vec())) }
				if DispatchFail::get() { Err((Default::default(), DispatchError::Other("event"))) } else { Ok(Default::default()) }
			}
		}
	})* };
}
sub! { pallet_echo 1, b"pal/echo"; pallet_erc20_peg 2, b"erc20peg"; pallet_nft_peg 3, b"nft/peg_"; }

// ---------------------------------------------------------------- EVM money
const E12: u128 = 1_000_000_000_000;
fn ceil(x: u128) -> u128 {
	x / E12 + if x % E12 == 0 { 0 } else { 1 }
}
fn pot() -> Acc {
	Pot::get().into_account_truncating()
}
/// XRP with at most 2^64 issued; accounts `on` exist (with at least the minimum balance) or not.
fn xrp(on: &[Acc]) {
	let s: u128 = sx::u64() as u128;
	let o = acc(9);
	pallet_assets::Asset::<Runtime>::insert(
		2,
		pallet_assets::AssetDetails { owner: o, issuer: o, admin: o, freezer: o, supply: s, min_balance: 1, is_sufficient: true, status: pallet_assets::AssetStatus::Live },
	);
	let mut left = s;
	for a in on {
		if sx::bool() {
			let b: u128 = sx::u64() as u128;
			sx::assume(b >= 1 && b <= left);
			left -= b;
			pallet_assets::Account::<Runtime>::insert(2, a, pallet_assets::AssetAccount { balance: b, frozen: false })
		}
	}
}
fn bal(a: &Acc) -> u128 {
	pallet_assets::Pallet::<Runtime>::balance(2, a)
}
fn issued() -> u128 {
	pallet_assets::Pallet::<Runtime>::total_supply(2)
}
fn exists(a: &Acc) -> bool {
	pallet_assets::Account::<Runtime>::contains_key(2, a)
}
/// A wei amount within the issuance bound, in the shape quotient × 10^12 + rest.
fn wei() -> u128 {
	let q: u128 = sx::u64() as u128;
	let r: u128 = sx::u64() as u128;
	sx::assume(r < E12);
	q * E12 + r
}
#[no_mangle]
pub extern "C" fn h_scale() {
	let (a, b) = (acc(0), acc(1));
	xrp(&[a, b]);
	let (ba, bb, s) = (bal(&a), bal(&b), issued());
	let v = wei();
	let m = ceil(v);
	sx::check(<Cur as fungible::Inspect<Acc>>::balance(&a) == ba * E12, "the EVM shows a balance as its XRP in wei");
	sx::check(scale_6dp_to_wei(ba) == ba * E12, "drops become wei exactly");
	sx::check(scale_wei_to_6dp(v) == m, "wei become drops rounded up");
	let pr = match sx::choose(3) {
		0 => Preservation::Preserve,
		1 => Preservation::Protect,
		_ => Preservation::Expendable,
	};
	sx::check(<Cur as fungible::Inspect<Acc>>::reducible_balance(&a, pr, Fortitude::Polite) == ba * E12, "the EVM may spend a balance to the last drop");
	let req = if sx::bool() { ExistenceRequirement::AllowDeath } else { ExistenceRequirement::KeepAlive };
	match sx::choose(4) {
		2 => {
			let was = exists(&a);
			let r = with_layer(|| <Cur as Currency<Acc>>::deposit_into_existing(&a, v));
			if let Ok(i) = r {
				sx::reach("EVM deposit");
				sx::check(i.peek() == m && bal(&a) - ba == m, "a deposit from the EVM is rounded up to a drop");
				core::mem::forget(i);
			} else {
				sx::reach("EVM deposit refused");
				sx::check(bal(&a) == ba && issued() == s && (!was || m > u64::MAX as u128), "a deposit to an account that exists works");
			}
		},
		3 => {
			let i = <Cur as Currency<Acc>>::deposit_creating(&a, v);
			sx::reach("EVM creating deposit");
			sx::check(i.peek() == bal(&a) - ba, "what is deposited is what the account gained");
			sx::check(i.peek() == m || (m < 1 && !exists(&a)) || m > u64::MAX as u128, "a deposit from the EVM is rounded up to a drop");
			core::mem::forget(i);
		},
		0 => {
			let r = with_layer(|| <Cur as Currency<Acc>>::transfer(&a, &b, v, req));
			if v == 0 {
				sx::check(r.is_ok(), "sending nothing always works");
			}
			if r.is_ok() {
				sx::reach("EVM transfer");
				sx::check(bal(&b) - bb == m && ba - bal(&a) == m, "an EVM transfer moves the value rounded up to a drop");
			} else {
				sx::reach("EVM transfer refused");
				sx::check(m > ba || (!exists(&b) && m < 1) || matches!(req, ExistenceRequirement::KeepAlive) || !exists(&a), "an EVM transfer that is covered works");
			}
			sx::check(issued() == s, "an EVM transfer creates and destroys nothing");
		},
		_ => {
			let r = with_layer(|| <Cur as Currency<Acc>>::withdraw(&a, v, WithdrawReasons::FEE, req));
			if let Ok(i) = r {
				sx::reach("EVM withdrawal");
				sx::check(i.peek() == m && ba - bal(&a) == m, "an EVM withdrawal takes the value rounded up to a drop");
				drop(i);
				sx::check(issued() == s - m, "what is withdrawn and dropped leaves the issuance");
			} else {
				sx::reach("EVM withdrawal refused");
				sx::check(m > ba || matches!(req, ExistenceRequirement::KeepAlive) || !exists(&a), "an EVM withdrawal that is covered works");
				sx::check(bal(&a) == ba && issued() == s, "a refused withdrawal takes nothing");
			}
		},
	}
}
#[no_mangle]
pub extern "C" fn h_evm_fee() {
	let (a, w) = (acc(0), acc(1));
	xrp(&[a, w, pot()]);
	Author::put(H160::from(w));
	let (ba, bw, bp, s) = (bal(&a), bal(&w), bal(&pot()), issued());
	// an account with a default futurepass pays through it
	let payer = if sx::bool() {
		sx::reach("a futurepass pays");
		pallet_futurepass::DefaultProxy::<Runtime>::insert(acc(5), a);
		acc(5)
	} else {
		a
	};
	let p = H160::from(payer);
	let era0 = pallet_tx_fee_pot::EraTxFees::<Runtime>::get();
	let fee = wei();
	type X = Fees;
	let r = with_layer(|| <X as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&p, U256::from(fee)).map_err(|_| DispatchError::Other("fee")));
	let m = ceil(fee);
	let paid = match r {
		Err(_) => {
			sx::reach("fee not covered");
			sx::check(m > ba, "a fee that is covered is taken");
			sx::check(bal(&a) == ba && issued() == s, "a fee that is refused takes nothing");
			return;
		},
		Ok(x) => x,
	};
	sx::check(ba - bal(&a) == m, "the fee is taken up front, rounded up to a drop");
	let corrected = wei();
	let base = wei();
	// the EVM never uses more than it took, nor a base fee above the whole
	sx::assume(corrected <= fee && base <= corrected);
	let tip = <X as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&p, U256::from(corrected), U256::from(base), paid);
	let gone = m == ba && m > 0;
	let due = ba - bal(&a);
	if !gone || m * E12 == corrected {
		sx::reach("refunded");
		sx::check(due == corrected / E12 || due == ceil(corrected), "what was not used is given back");
	} else {
		sx::reach("an emptied account");
		sx::check(due <= m, "an emptied account pays no more than was taken");
	}
	<X as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(tip);
	let to_pot = bal(&pot()) - bp;
	let to_author = bal(&w) - bw;
	let b = ceil(base);
	let base_due = if due < b { due } else { b };
	sx::check(to_pot == base_due, "the fee pot receives the base fee");
	sx::check(pallet_tx_fee_pot::EraTxFees::<Runtime>::get() - era0 == to_pot, "the era's fees are what the pot received");
	sx::check(to_author == due - base_due, "the author receives what was paid above the base fee");
	sx::check(issued() == s, "fees move XRP and never create or destroy it");
}
#[no_mangle]
pub extern "C" fn h_fee_weight() {
	struct M;
	static mut P_: u32 = 0;
	impl frame_support::traits::Get<sp_runtime::Permill> for M {
		fn get() -> sp_runtime::Permill {
			sp_runtime::Permill::from_parts(unsafe { P_ })
		}
	}
	unsafe { P_ = 125 }
	let w = sx::u64();
	let r = <PercentageOfWeight<M> as frame_support::weights::WeightToFee>::weight_to_fee(&frame_support::weights::Weight::from_parts(w, sx::u64()));
	let x = w as u128 * 125;
	sx::reach("weight");
	sx::check(r * 1_000_000 <= x + 999_999 && x <= r * 1_000_000 + 999_999, "the fee for a weight is its share");
	sx::check(w == 0 || w < 8000 || r > 0, "work is not free");
}
/// The pre-check of an EVM transaction.
#[no_mangle]
pub extern "C" fn h_tx_validation() {
	let to = if sx::bool() {
		None
	} else if sx::bool() {
		Some(H160::from_low_u64_be(1211))
	} else {
		Some(H160::from(acc(3)))
	};
	let (v, g, q) = (sx::u64(), sx::u64(), sx::u32());
	let b = sx::u128();
	let x = CheckEvmTransaction::<InvalidEvmTransactionError> {
		transaction: CheckEvmTransactionInput { to, value: v.into(), gas_limit: g.into(), gas_price: q.into() },
		marker: PhantomData,
	};
	let who = Account { nonce: U256::zero(), balance: b.into() };
	let r = <impls::HandleTxValidation<InvalidEvmTransactionError> as vstub::evm::HandleTxValidation<_>>::with_balance_for(&x, &who);
	let ok = v as u128 + g as u128 * q as u128 <= b;
	if to == Some(H160::from_low_u64_be(1211)) {
		sx::reach("with a fee preference");
		sx::check(r.is_ok(), "who pays in another asset needs no XRP");
	} else {
		sx::reach("without a fee preference");
		sx::check(r.is_ok() == ok, "an EVM transaction must be covered by the sender's balance");
	}
}
// ---------------------------------------------------------------- addresses, accounts and routes
#[no_mangle]
pub extern "C" fn h_token_address() {
	type I = Runtime;
	let p: [u8; 4] = sx::bytes::<4>();
	let q: [u8; 4] = sx::bytes::<4>();
	let (i, j) = (sx::u32(), sx::u32());
	let to = |i: u32, p: &[u8; 4]| -> H160 { <I as ErcIdConversion<u32>>::runtime_id_to_evm_id(i, p).into() };
	let from = |a: H160, p: &[u8; 4]| <I as ErcIdConversion<u32>>::evm_id_to_runtime_id(a.into(), p);
	sx::reach("addresses");
	sx::check(from(to(i, &p), &p) == Some(i), "a token's address leads back to the token");
	sx::check((to(i, &p) == to(j, &q)) == (i == j && p == q), "no two tokens share an address");
	let a = H160(sx::bytes::<20>());
	if let Some(k) = from(a, &p) {
		sx::reach("an address of a token");
		sx::check(to(k, &p) == a, "a token has no second address");
	}
	// a new asset's address looks like a contract
	let b = H160(sx::bytes::<20>());
	sx::assume(b != to(i, &p));
	let before = vstub::evm::Codes::get(b);
	<OnNewAssetSubscription as OnNewAssetSubscriber<u32>>::on_asset_create(i, &p);
	sx::check(!vstub::evm::Codes::get(to(i, &p)).is_empty(), "a new token's address has code");
	sx::check(vstub::evm::Codes::get(b) == before, "no other address gets code");
}
#[no_mangle]
pub extern "C" fn h_accounts() {
	let (h, f) = (acc(0), acc(1));
	let a: Acc = any_acc();
	// a holder, his futurepass, and perhaps the futurepass as his default
	pallet_futurepass::Holders::<Runtime>::insert(h, f);
	let own = ProxyDefinition_(h, ProxyType::Owner);
	let del = ProxyDefinition_(acc(3), ProxyType::Any);
	let v = match sx::choose(4) {
		0 => vec![own],
		1 => vec![del, own],
		2 => vec![own, del],
		_ => vec![del],
	};
	let owned = v.iter().any(|d| d.proxy_type == ProxyType::Owner);
	pallet_proxy::Proxies::<Runtime>::insert(f, (v, 0));
	let dflt = sx::bool();
	if dflt {
		pallet_futurepass::DefaultProxy::<Runtime>::insert(h, f);
	}
	let m: Acc = <impls::AddressMapping<Acc> as vstub::evm::AddressMapping<Acc>>::into_account_id(H160::from(a));
	sx::reach("accounts");
	if same(&a, &h) && dflt {
		sx::reach("a default futurepass");
		sx::check(m == f, "an address with a default futurepass acts as it");
	} else {
		sx::check(m == a, "an address without a default futurepass acts as itself");
	}
	let l = FuturepassLookup::lookup(H160::from(a));
	let l2 = DoughnutFuturepassLookup::lookup(H160::from(a));
	sx::check(l == l2 && (if same(&a, &h) { l == Ok(H160::from(f)) } else { l.is_err() }), "an address leads to the futurepass it holds");
	for u in [FuturepassLookup::unlookup(H160::from(a)), DoughnutFuturepassLookup::unlookup(H160::from(a))] {
		let want = if same(&a, &f) && owned { H160::from(h) } else { H160::default() };
		sx::check(u == want, "a futurepass leads to its owner");
	}
	// the validator blocks are credited to
	Vals::put(vec![acc(4), acc(5), acc(6)]);
	struct F;
	static mut I_: Option<u32> = None;
	impl FindAuthor<u32> for F {
		fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(_: I) -> Option<u32> {
			unsafe { I_ }
		}
	}
	let i = if sx::bool() { Some(sx::u32()) } else { None };
	unsafe { I_ = i }
	let e: Vec<([u8; 4], &[u8])> = vec![];
	let got = <EthereumFindAuthor<F> as FindAuthor<H160>>::find_author(e);
	let want = match i {
		Some(0) => Some(acc(4)),
		Some(1) => Some(acc(5)),
		Some(2) => Some(acc(6)),
		_ => None,
	};
	sx::check(got == want.map(H160::from), "a block's author is the validator its slot belongs to");
	// who may act for an EVM address
	let o: O = match sx::choose(3) {
		0 => O::from(RawOrigin::Signed(h)),
		1 => O::from(RawOrigin::Root),
		_ => O::from(RawOrigin::None),
	};
	let signed = matches!(o.raw, RawOrigin::Signed(_));
	let r = <FutureverseEnsureAddressSame<Acc> as vstub::evm::EnsureAddressOrigin<O>>::try_address_origin(&H160::from(a), o);
	sx::check(r.is_ok() == (signed && same(&a, &h)), "only its own account acts for an EVM address");
}
#[allow(non_snake_case)]
fn ProxyDefinition_(delegate: Acc, proxy_type: ProxyType) -> pallet_proxy::Def {
	pallet_proxy::ProxyDefinition { delegate, proxy_type, delay: 0 }
}
#[no_mangle]
pub extern "C" fn h_router() {
	let (s, d) = (H160(sx::bytes::<20>()), H160(sx::bytes::<20>()));
	let v = sx::vec(3);
	DispatchFail::put(sx::bool());
	let to = |n: u8| -> H160 {
		let id: PalletId = match n {
			1 => PalletId(*b"pal/echo"),
			2 => PalletId(*b"erc20peg"),
			_ => PalletId(*b"nft/peg_"),
		};
		id.into_account_truncating()
	};
	let r = <impls::EthereumEventRouter as seed_pallet_common::EthereumEventRouter>::route(&s, &d, &v);
	let seen = unsafe { &*core::ptr::addr_of!(ROUTED) };
	match (1..4u8).find(|n| d == to(*n)) {
		None => {
			sx::reach("nobody's event");
			sx::check(matches!(r, Err((_, EventRouterError::NoReceiver))) && seen.is_empty(), "an event for nobody is handed to nobody");
		},
		Some(n) if s == H160([n; 20]) => {
			sx::reach("an event is handed over");
			sx::check(seen.len() == 1 && seen[0] == (n, s, v), "an event reaches the pallet it is for, unaltered");
			sx::check(r.is_ok() != DispatchFail::get(), "the router says whether the pallet handled the event");
		},
		Some(_) => {
			sx::reach("a foreign sender");
			sx::check(r.is_err() && seen.is_empty(), "an event from a foreign contract is not handled");
		},
	}
}
#[no_mangle]
pub extern "C" fn h_session() {
	let active = if sx::bool() { Some(sx::u32()) } else { None };
	let start = if sx::bool() { Some(sx::u32()) } else { None };
	let now = sx::u32();
	let f = sx::choose(4) as u8;
	Era_::put(active);
	Sess::put(now);
	Force::put(f);
	let e = active.unwrap_or(0);
	if let Some(x) = start {
		sx::assume(x < u32::MAX - 24);
		Start::insert(e, x);
	}
	let r = <StakingSessionTracker as FinalSessionTracker>::is_active_session_final();
	let want = f == 1 || f == 3 || start.map_or(false, |x| now == x + 23);
	sx::reach("sessions");
	sx::check(r == want, "a session is the last of its era when the era's sessions are up or a new era is forced");
}
// ---------------------------------------------------------------- what a proxy may do
fn kind() -> ProxyType {
	match sx::choose(6) {
		0 => ProxyType::NoPermission,
		1 => ProxyType::Any,
		2 => ProxyType::NonTransfer,
		3 => ProxyType::Governance,
		4 => ProxyType::Staking,
		_ => ProxyType::Owner,
	}
}
fn evm_call(target: H160) -> RuntimeCall {
	RuntimeCall::EVM(vstub::evm::Call::call {
		source: H160::from(acc(1)),
		target,
		input: vec![1, 2, 3, 4],
		value: U256::zero(),
		gas_limit: 1,
		max_fee_per_gas: U256::zero(),
		max_priority_fee_per_gas: None,
		nonce: None,
		access_list: vec![],
	})
}
/// An address: of the futurepass registrar, of a futurepass (any), of the fee proxy, or any.
fn address() -> (H160, bool) {
	match sx::choose(3) {
		0 => (H160::from_low_u64_be(65535), true),
		1 => {
			let mut a = [0xffu8; 20];
			let t: [u8; 16] = sx::bytes::<16>();
			a[4..].copy_from_slice(&t);
			(H160(a), true)
		},
		_ => {
			let a = H160(sx::bytes::<20>());
			sx::assume(!(a.0[0] == 0xff && a.0[1] == 0xff && a.0[2] == 0xff && a.0[3] == 0xff) && a != H160::from_low_u64_be(65535) && a != H160::from_low_u64_be(1211));
			(a, false)
		},
	}
}
#[no_mangle]
pub extern "C" fn h_proxy_filter() {
	use pallet_futurepass::Call as F;
	let k = kind();
	let boss = k == ProxyType::Owner;
	let full = boss || k == ProxyType::Any;
	let (f, d) = (acc(1), acc(2));
	// (the call, does it change who controls the futurepass, and may the owner do it through a proxy)
	let (c, control, owner_may) = match sx::choose(14) {
		0 => (RuntimeCall::Proxy(pallet_proxy::Call::add_proxy { delegate: d, proxy_type: ProxyType::Any, delay: 0 }), true, false),
		1 => (RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: f, force_proxy_type: None, call: Box::new(RuntimeCall::None) }), true, false),
		2 => (RuntimeCall::Futurepass(F::create { account: d }), true, false),
		3 => (RuntimeCall::Futurepass(F::register_delegate_with_signature { futurepass: f, delegate: d, proxy_type: ProxyType::Any, deadline: 0, signature: [0; 65] }), true, true),
		4 => (RuntimeCall::Futurepass(F::unregister_delegate { futurepass: f, delegate: d }), true, true),
		5 => (RuntimeCall::Futurepass(F::transfer_futurepass { current_owner: f, new_owner: None }), true, true),
		6 => (RuntimeCall::Futurepass(F::proxy_extrinsic { futurepass: f, call: Box::new(RuntimeCall::None) }), true, false),
		7 => (RuntimeCall::System(vstub::system::Call::remark { remark: vec![] }), false, true),
		8 => (RuntimeCall::Balances(pallet_balances::Call::transfer { dest: d, value: sx::u128() }), false, true),
		9 => (RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: sx::u32(), destination: d, amount: sx::u128(), keep_alive: sx::bool() }), false, true),
		10 => (RuntimeCall::Nft(pallet_nft::Call::transfer { collection_id: sx::u32() }), false, true),
		11 => (RuntimeCall::Xrpl(pallet_xrpl::Call::transact { encoded_msg: vec![] }), false, true),
		12 => (RuntimeCall::Utility(other::Call::batch { calls: vec![] }), false, true),
		_ => {
			let (a, c) = address();
			if sx::bool() {
				// passed on by the fee proxy
				unsafe { HIDDEN = Some(a) }
				(evm_call(H160::from_low_u64_be(1211)), c, true)
			} else {
				(evm_call(a), c, true)
			}
		},
	};
	let r = k.filter(&c);
	if control {
		sx::reach("a call that changes control");
		if boss && !matches!(c, RuntimeCall::EVM(_)) {
			sx::check(r == owner_may, "the owner may do through the futurepass what its rules say");
		}
		if !boss {
			sx::check(!r, "only the owner changes who controls a futurepass");
		}
	} else {
		sx::reach("another call");
		sx::check(r == full, "owners and full delegates make any other call, everyone else none");
	}
}
/// Call data as the precompile reads it.
fn bytes(v: Vec<u8>) -> precompile_utils::prelude::BoundedBytes<frame_support::traits::ConstU32<65536>> {
	let mut e = abi::wn(32).to_vec();
	e.extend(abi::wn(v.len() as u128));
	let n = v.len();
	e.extend(v);
	e.resize(e.len() + (32 - n % 32) % 32, 0);
	precompile_utils::prelude::EvmDataReader::new(&e).read().ok().unwrap()
}
#[no_mangle]
pub extern "C" fn h_evm_filter() {
	let k = kind();
	let full = k == ProxyType::Owner || k == ProxyType::Any;
	let (a, control) = address();
	let data = sx::vec(4);
	let sel = u32::from_be_bytes([data[0], data[1], data[2], data[3]]);
	let c = fpp::EvmSubCall { to: Address(a), call_data: bytes(data) };
	let r = fpp::EvmProxyCallFilter::is_evm_proxy_call_allowed(&k, &c, sx::bool());
	if control {
		sx::reach("a call that changes control");
		let listed = sel == 0xfb243a5c || sel == 0x8376e5ae || sel == 0xf2fde38b;
		sx::check(r == listed, "only the listed futurepass calls go through a futurepass");
	} else {
		sx::reach("another call");
		sx::check(r == full, "owners and full delegates make any other EVM call, everyone else none");
	}
}
#[no_mangle]
pub extern "C" fn h_superset() {
	let (x, y) = (kind(), kind());
	sx::reach("kinds");
	if x.is_superset(&y) {
		// no call `y` allows is refused by `x`
		use pallet_futurepass::Call as F;
		let (f, d) = (acc(1), acc(2));
		for c in [
			RuntimeCall::None,
			RuntimeCall::Balances(pallet_balances::Call::transfer { dest: d, value: 1 }),
			RuntimeCall::Futurepass(F::unregister_delegate { futurepass: f, delegate: d }),
			RuntimeCall::Futurepass(F::transfer_futurepass { current_owner: f, new_owner: None }),
			RuntimeCall::Futurepass(F::create { account: d }),
			RuntimeCall::Proxy(pallet_proxy::Call::add_proxy { delegate: d, proxy_type: ProxyType::Any, delay: 0 }),
		] {
			sx::check(!y.filter(&c) || x.filter(&c), "a kind of proxy that contains another allows all the other does");
		}
	}
	sx::check(x.is_superset(&x), "a kind of proxy contains itself");
	let n = sx::u8();
	match ProxyType::try_from(n) {
		Ok(k) => sx::check(u8::from(k) == n, "a kind of proxy and its number belong together"),
		Err(_) => sx::check(n > 4 && n < 255, "every kind of proxy has its number"),
	}
}
/// The futurepass's proxies and their deposits.
#[no_mangle]
pub extern "C" fn h_proxy_provider() {
	type P = ProxyPalletProvider;
	let (u, f, d, o) = (acc(0), acc(1), acc(2), acc(3));
	// (they are kept sorted by account, the owner has no place of his own)
	let all = if sx::bool() {
		[ProxyDefinition_(o, ProxyType::Owner), ProxyDefinition_(acc(4), ProxyType::Any), ProxyDefinition_(d, ProxyType::Any)]
	} else {
		[ProxyDefinition_(acc(4), ProxyType::Any), ProxyDefinition_(o, ProxyType::Owner), ProxyDefinition_(d, ProxyType::Any)]
	};
	// who is registered, and the deposit reserved for them
	let n = sx::choose(4) as usize;
	let v: Vec<_> = all[..n].to_vec();
	let dep = pallet_proxy::Pallet::<Runtime>::deposit(n as u32);
	let x: u128 = sx::u64() as u128;
	let y: u128 = sx::u64() as u128;
	vstub::balances::Account::<Runtime>::insert(u, vstub::balances::AccountData { free: x, reserved: 0, frozen: 0 });
	if n > 0 {
		sx::assume(y >= Ed::get());
	}
	vstub::balances::Account::<Runtime>::insert(f, vstub::balances::AccountData { free: y, reserved: dep, frozen: 0 });
	vstub::balances::TotalIssuance::<Runtime>::put(x + y + dep);
	if n > 0 {
		pallet_proxy::Proxies::<Runtime>::insert(f, (v.clone(), dep));
	}
	let free = |a: &Acc| vstub::balances::Account::<Runtime>::get(a).free;
	let held = |a: &Acc| vstub::balances::Account::<Runtime>::get(a).reserved;
	let proxies = || pallet_proxy::Proxies::<Runtime>::get(f).0;
	match sx::choose(4) {
		0 => {
			let t = kind();
			let r = with_layer(|| P::add_delegate(&u, &f, &d, &u8::from(t)));
			if r.is_ok() {
				sx::reach("delegate added");
				let want = pallet_proxy::Pallet::<Runtime>::deposit(n as u32 + 1);
				sx::check(held(&f) == want && pallet_proxy::Proxies::<Runtime>::get(f).1 == want, "the deposit for the proxies is reserved");
				let ed = if y < Ed::get() { Ed::get() } else { 0 };
				sx::check(x - free(&u) == want - dep + ed, "who adds a delegate pays his deposit");
				sx::check(free(&f) == y + ed, "the futurepass's own money is not used");
				sx::check(proxies().len() == n + 1 && P::exists(&f, &d, Some(t)), "the delegate is added as asked");
			} else {
				sx::reach("delegate not added");
				sx::check(x < pallet_proxy::Pallet::<Runtime>::deposit(n as u32 + 1) - dep + 2 * Ed::get() || n == 3, "a delegate who is paid for is added");
			}
			sx::check(v.iter().all(|p| proxies().contains(p)), "adding a delegate removes none");
		},
		1 => {
			let r = with_layer(|| P::remove_delegate(&u, &f, &d));
			let was = n == 3;
			if r.is_ok() {
				sx::reach("delegate removed");
				let want = pallet_proxy::Pallet::<Runtime>::deposit(n as u32 - 1);
				sx::check(was && held(&f) == want && pallet_proxy::Proxies::<Runtime>::get(f).1 == want, "the rest of the deposits stays reserved");
				sx::check(free(&u) - x == dep - want && free(&f) == y, "the removed delegate's deposit is paid out");
				sx::check(proxies().len() == n - 1 && !P::exists(&f, &d, None), "the delegate is removed and only he");
			} else {
				sx::reach("delegate not removed");
				sx::check(!was || x + dep < Ed::get(), "a delegate can be removed");
				sx::check(proxies() == v, "a refused removal removes none");
			}
		},
		2 => {
			let r = with_layer(|| P::remove_account(&u, &f));
			if r.is_ok() {
				sx::reach("futurepass removed");
				sx::check(proxies().is_empty() && held(&f) == 0, "a removed futurepass has no proxies and no deposit");
				sx::check(free(&u) - x == dep, "its deposits are paid out");
				sx::check(free(&f) == y || y < Ed::get(), "its other money stays");
			}
		},
		_ => {
			sx::reach("questions");
			let a = pick_acc(5);
			let t = kind();
			let mine: Vec<ProxyType> = v.iter().filter(|p| same(&p.delegate, &a)).map(|p| p.proxy_type).collect();
			sx::check(P::exists(&f, &a, None) == !mine.is_empty(), "a delegate is one who is registered");
			sx::check(P::exists(&f, &a, Some(t)) == mine.contains(&t), "a delegate has the kind he is registered with");
			sx::check(P::owner(&f) == v.iter().find(|p| p.proxy_type == ProxyType::Owner).map(|p| p.delegate), "the owner is the proxy of kind owner");
			sx::check(P::delegates(&f) == v.iter().map(|p| (p.delegate, p.proxy_type)).collect::<Vec<_>>(), "the delegates are the registered ones");
			// a call through the futurepass is a call of the proxy pallet by the caller
			DispatchFail::put(sx::bool());
			let c = RuntimeCall::System(vstub::system::Call::remark { remark: sx::vec(2) });
			let r = P::proxy_call(O::from(RawOrigin::Signed(a)), f, c.clone());
			sx::check(r.is_ok() != DispatchFail::get(), "the outcome of a proxied call is passed on");
			let want = RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: f, force_proxy_type: None, call: Box::new(c) });
			sx::check(done().len() == 1 && done()[0].1 == want && matches!(&done()[0].0, RawOrigin::Signed(b) if *b == a), "a proxied call is made by the caller for the futurepass");
		},
	}
	sx::check(vstub::balances::TotalIssuance::<Runtime>::get() == x + y + dep, "deposits create and destroy nothing");
}
// ---------------------------------------------------------------- who may call what
fn leaf() -> RuntimeCall {
	let d = acc(2);
	match sx::choose(13) {
		0 => RuntimeCall::System(vstub::system::Call::remark { remark: sx::vec(3) }),
		1 => RuntimeCall::System(vstub::system::Call::set_code { code: vec![1] }),
		2 => RuntimeCall::Balances(pallet_balances::Call::transfer { dest: any_acc(), value: sx::u128() }),
		3 => RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: any_acc(), value: sx::u128() }),
		4 => RuntimeCall::Balances(pallet_balances::Call::transfer_all { dest: d }),
		5 => RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: sx::u32(), destination: any_acc(), amount: sx::u128(), keep_alive: sx::bool() }),
		6 => RuntimeCall::Futurepass(pallet_futurepass::Call::create { account: any_acc() }),
		7 => RuntimeCall::Nft(pallet_nft::Call::set_base_uri { collection_id: sx::u32() }),
		8 => RuntimeCall::Nft(pallet_nft::Call::set_name { collection_id: sx::u32() }),
		9 => RuntimeCall::Nft(pallet_nft::Call::set_royalties_schedule { collection_id: sx::u32() }),
		10 => RuntimeCall::Nft(pallet_nft::Call::set_owner { collection_id: sx::u32() }),
		11 => RuntimeCall::Xrpl(pallet_xrpl::Call::transact { encoded_msg: vec![] }),
		_ => RuntimeCall::Utility(other::Call::batch { calls: vec![RuntimeCall::None] }),
	}
}
fn in_pass(c: RuntimeCall) -> RuntimeCall {
	RuntimeCall::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: acc(1), call: Box::new(c) })
}
fn in_fee(c: RuntimeCall) -> RuntimeCall {
	RuntimeCall::FeeProxy(pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: 1, max_payment: 1, call: Box::new(c) })
}
#[no_mangle]
pub extern "C" fn h_validators() {
	let l = leaf();
	let w = sx::choose(4);
	let c = match w {
		0 => l.clone(),
		1 => in_pass(l.clone()),
		2 => in_fee(l.clone()),
		_ => in_fee(in_pass(l.clone())),
	};
	let paused = sx::bool();
	if paused {
		pause(c.clone());
	}
	let pass = w == 1 || w == 3;
	sx::reach("calls");
	sx::check(FuturepassLookup::check_extrinsic(&c, &()) == pass, "a call through a futurepass is one, paid for in another asset or not");
	sx::check(DoughnutFuturepassLookup::check_extrinsic(&c, &()).is_ok() == pass, "a doughnut's holder acts through a futurepass");
	sx::check(MaintenanceModeCallValidator::check_extrinsic(&c, &()) == !paused, "a paused call is refused");
	sx::check(FuturepassCallValidator::check_extrinsic(&c, &()) == (w == 0 && matches!(l, RuntimeCall::Xrpl(_))), "an XRPL transaction does not go through a futurepass");
	let ok = w == 0
		&& !paused
		&& match &l {
			RuntimeCall::System(vstub::system::Call::remark { .. }) => true,
			RuntimeCall::Nft(n) => matches!(n, pallet_nft::Call::set_base_uri { .. } | pallet_nft::Call::set_name { .. } | pallet_nft::Call::set_royalties_schedule { .. }),
			_ => false,
		};
	sx::check(CrowdsaleProxyVaultValidator::check_extrinsic(&c, &()).is_ok() == ok, "a crowdsale's vault makes the listed calls only");
}
#[no_mangle]
pub extern "C" fn h_doughnut() {
	use trn_pact::types::{Numeric, PactType, StringLike};
	let l = leaf();
	let c = match sx::choose(4) {
		0 => l.clone(),
		1 => in_pass(l.clone()),
		2 => in_fee(l.clone()),
		_ => in_fee(in_pass(l.clone())),
	};
	let paused = sx::bool();
	if paused {
		pause(l.clone());
	}
	let yes = sx::bool();
	let r = DoughnutCallValidator::check_extrinsic(&c, &doughnut_rs::Topping(yes));
	let asked = unsafe { &*core::ptr::addr_of!(doughnut_rs::ASKED) };
	let st = |a: &Acc| { let h: [u8; 20] = H160::from(*a).0; PactType::StringLike(StringLike(h.to_vec())) };
	let num = |x: u128| PactType::Numeric(Numeric(x as u64));
	let (known, fits, args) = match &l {
		RuntimeCall::Balances(pallet_balances::Call::transfer { dest, value }) | RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest, value }) => (true, *value <= u64::MAX as u128, vec![st(dest), num(*value)]),
		RuntimeCall::Futurepass(pallet_futurepass::Call::create { account }) => (true, true, vec![st(account)]),
		RuntimeCall::System(vstub::system::Call::remark { remark }) => (true, true, vec![PactType::StringLike(StringLike(remark.clone()))]),
		RuntimeCall::AssetsExt(pallet_assets_ext::Call::transfer { asset_id, destination, amount, keep_alive }) => (true, *amount <= u64::MAX as u128, vec![num(*asset_id as u128), st(destination), num(*amount), num(*keep_alive as u128)]),
		_ => (false, true, vec![]),
	};
	if r.is_ok() {
		sx::reach("a doughnut's call");
		sx::check(known && yes && !paused, "a doughnut's call is one its topping allows");
		let m = l.get_call_metadata();
		sx::check(fits, "a doughnut's topping is asked about the real amount");
		sx::check(asked.len() == 1 && asked[0] == (m.pallet_name.into(), m.function_name.into(), args), "a doughnut's topping is asked about the call that is made");
	} else {
		sx::reach("a doughnut's call refused");
		sx::check(!known || !yes || paused || !fits, "a call the topping allows is made");
	}
}
#[no_mangle]
pub extern "C" fn h_call_filter() {
	let (c, banned) = match sx::choose(14) {
		0 => (RuntimeCall::Assets(assets_::Call::create { id: sx::u32() }), true),
		1 => (RuntimeCall::Assets(assets_::Call::transfer { id: sx::u32(), amount: sx::u128() }), false),
		2 => (RuntimeCall::EthBridge(ethy_::Call::submit_challenge { event_claim_id: sx::u64() }), true),
		3 => (RuntimeCall::EthBridge(ethy_::Call::submit_event { event: sx::vec(2) }), false),
		4 => (RuntimeCall::XRPLBridge(xbridge_::Call::submit_challenge { transaction_hash: H256([1; 32]) }), true),
		5 => (RuntimeCall::XRPLBridge(xbridge_::Call::submit_transaction { ledger_index: sx::u64() }), false),
		6 => (RuntimeCall::Staking(staking_::Call::bond { value: sx::u128(), payee: RewardDestination::Staked }), true),
		7 => {
			let payee = match sx::choose(4) {
				0 => RewardDestination::Stash,
				1 => RewardDestination::Controller,
				2 => RewardDestination::Account(any_acc()),
				_ => RewardDestination::None,
			};
			(RuntimeCall::Staking(staking_::Call::bond { value: sx::u128(), payee }), false)
		},
		8 => (RuntimeCall::Staking(staking_::Call::payout_stakers { validator_stash: acc(1), era: sx::u32() }), true),
		9 => (RuntimeCall::Staking(staking_::Call::nominate { x: 1 }), false),
		10 => (RuntimeCall::Proxy(pallet_proxy::Call::add_proxy { delegate: acc(1), proxy_type: kind(), delay: sx::u32() }), true),
		11 => (RuntimeCall::Proxy(pallet_proxy::Call::proxy { real: acc(1), force_proxy_type: None, call: Box::new(RuntimeCall::None) }), false),
		12 => (in_pass(RuntimeCall::None), false),
		_ => (leaf(), false),
	};
	let paused = sx::bool();
	if paused {
		pause(c.clone());
	}
	let r = <filter::CallFilter as frame_support::traits::Contains<RuntimeCall>>::contains(&c);
	sx::reach("calls");
	if paused {
		sx::check(!r, "a paused call is refused");
	} else {
		sx::check(r != banned, "the calls the chain switches off are refused, the others are not");
	}
}
