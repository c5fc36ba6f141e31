//! Harness runtime: the pieces every harness crate needs to instantiate the pallets under test.
#![allow(unused)]
use frame_support::traits::{
	fungibles::{self, *},
	tokens::*,
	Get, StorageInstance, UnfilteredDispatchable,
};
pub use frame_support::PalletId;
use seed_pallet_common::*;
pub use seed_primitives::{AccountId, AssetId, Balance};
use sp_runtime::{traits::AccountIdConversion, ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::marker::PhantomData;
pub use vstub::storage::{capture, with_layer, writes, StorageDoubleMap, StorageMap, StorageValue, ValueQuery, OptionQuery};
pub use vstub::sx;
pub use {codec, frame_support, frame_system, scale_info, seed_pallet_common, seed_primitives, sp_core, sp_runtime, sp_std, vstub};
pub type Acc = AccountId;

/// The n-th distinct ordinary account.
pub fn acc(n: u8) -> Acc {
	let mut b = [0x11u8; 20];
	b[0] = 0xA0 + n;
	AccountId::from(sp_core::H160(b))
}
/// An entirely arbitrary account.
pub fn any_acc() -> Acc {
	AccountId::from(sp_core::H160(sx::bytes::<20>()))
}
/// One of the first n ordinary accounts.
pub fn pick_acc(n: u8) -> Acc {
	acc(sx::choose(n as u64) as u8)
}
/// Signed origin.
#[macro_export]
macro_rules! signed {
	($a:expr) => {
		$crate::vstub::system::RawOrigin::Signed($a).into()
	};
}
#[macro_export]
macro_rules! prefix {
	($n:ident) => {
		pub struct $n;
		impl $crate::frame_support::traits::StorageInstance for $n {
			const STORAGE_PREFIX: &'static str = stringify!($n);
			fn slot() -> &'static mut $crate::vstub::storage::Slot {
				static mut S: $crate::vstub::storage::Slot = $crate::vstub::storage::Slot::NEW;
				unsafe { &mut *core::ptr::addr_of_mut!(S) }
			}
		}
	};
}
/// A runtime call type with no calls behind it.
pub struct NoCall<T>(pub u8, PhantomData<T>);
impl<T> NoCall<T> {
	pub fn new(n: u8) -> Self {
		NoCall(n, PhantomData)
	}
}
impl<T> Clone for NoCall<T> {
	fn clone(&self) -> Self {
		NoCall(self.0, PhantomData)
	}
}
impl<T> PartialEq for NoCall<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T> Eq for NoCall<T> {}
impl<T> core::fmt::Debug for NoCall<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		Ok(())
	}
}
impl<T> codec::Encode for NoCall<T> {
	fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) {
		self.0.encode_to(o)
	}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T> codec::Decode for NoCall<T> {
	fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> {
		Ok(NoCall(u8::decode(i)?, PhantomData))
	}
}
impl<T: frame_system::Config> From<frame_system::Call<T>> for NoCall<T> {
	fn from(_: frame_system::Call<T>) -> Self {
		NoCall(0, PhantomData)
	}
}
impl<T: frame_system::Config> frame_support::dispatch::Dispatchable for NoCall<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	type Config = ();
	type Info = frame_support::dispatch::DispatchInfo;
	type PostInfo = frame_support::dispatch::PostDispatchInfo;
	fn dispatch(self, _o: T::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl<T: frame_system::Config> UnfilteredDispatchable for NoCall<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	fn dispatch_bypass_filter(self, _o: T::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl<T> frame_support::dispatch::GetDispatchInfo for NoCall<T> {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		Default::default()
	}
}

/// `frame_system::Config` for a harness runtime.
#[macro_export]
macro_rules! sys {
	($t:ident) => {
		$crate::sys!($t, $crate::NoCall<$t>);
	};
	($t:ident, $call:ty) => {
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub struct $t;
		pub struct DbW;
		impl $crate::frame_support::traits::Get<$crate::vstub::weights::RuntimeDbWeight> for DbW {
			fn get() -> $crate::vstub::weights::RuntimeDbWeight {
				$crate::vstub::weights::RuntimeDbWeight { read: 1, write: 1 }
			}
		}
		impl $crate::frame_system::Config for $t {
			type RuntimeOrigin = $crate::vstub::system::Origin<$crate::Acc, $call>;
			type RuntimeCall = $call;
			type RuntimeEvent = ();
			type AccountId = $crate::Acc;
			type BlockNumber = u32;
			type Nonce = u32;
			type Hash = $crate::sp_core::H256;
			type Hashing = $crate::sp_runtime::traits::BlakeTwo256;
			type Lookup = $crate::sp_runtime::traits::IdentityLookup<$crate::Acc>;
			type DbWeight = DbW;
			type Block = ();
			type Version = ();
			type BlockHashCount = $crate::frame_support::traits::ConstU32<2400>;
		}
		pub fn set_block(n: u32) {
			$crate::frame_system::Pallet::<$t>::set_block_number(n)
		}
	};
}
/// A `Get` implementation for a constant expression.
#[macro_export]
macro_rules! konst {
	($($n:ident: $t:ty = $e:expr;)*) => { $(
		pub struct $n;
		impl $crate::frame_support::traits::Get<$t> for $n { fn get() -> $t { $e } }
		impl $n { pub fn get() -> $t { $e } }
	)* };
}

// ---- Ledger: the multi-currency the pallets settle in ----
prefix!(LBal);
prefix!(LSupply);
prefix!(LHeld);
prefix!(LNext);
pub type Bal = StorageDoubleMap<LBal, (), AssetId, (), Acc, Balance, ValueQuery>;
pub type Supply = StorageMap<LSupply, (), AssetId, Balance, OptionQuery>;
pub type Held = StorageDoubleMap<LHeld, (), AssetId, (), Acc, Balance, ValueQuery>;
pub type Next = StorageValue<LNext, AssetId, ValueQuery>;
/// Exact multi-asset ledger (free balances, held balances, issuance). It follows the `fungibles`
/// contract: every transfer, mint, burn either moves exactly the amount or fails.
pub struct Ledger;
/// The number of decimals of every asset.
pub static mut DECIMALS: u8 = 6;
impl Ledger {
	pub fn bal(a: AssetId, w: &Acc) -> Balance {
		Bal::get(a, w)
	}
	pub fn held(a: AssetId, w: &Acc) -> Balance {
		Held::get(a, w)
	}
	pub fn set(a: AssetId, w: &Acc, x: Balance) {
		Bal::insert(a, w, x)
	}
	pub fn create(a: AssetId, supply: Balance) {
		Supply::insert(a, supply)
	}
	pub fn supply(a: AssetId) -> Balance {
		Supply::get(a).unwrap_or_default()
	}
	fn mv(a: AssetId, f: &Acc, t: &Acc, x: Balance) -> DispatchResult {
		<Ledger as fungibles::Mutate<Acc>>::transfer(a, f, t, x, Preservation::Expendable).map(|_| ())
	}
}
impl fungibles::Inspect<Acc> for Ledger {
	type AssetId = AssetId;
	type Balance = Balance;
	fn total_issuance(a: AssetId) -> Balance {
		Ledger::supply(a)
	}
	fn minimum_balance(_a: AssetId) -> Balance {
		1
	}
	fn total_balance(a: AssetId, w: &Acc) -> Balance {
		Bal::get(a, w) + Held::get(a, w)
	}
	fn balance(a: AssetId, w: &Acc) -> Balance {
		Bal::get(a, w)
	}
	fn reducible_balance(a: AssetId, w: &Acc, p: Preservation, _f: Fortitude) -> Balance {
		let b = Bal::get(a, w);
		if p == Preservation::Expendable {
			b
		} else {
			b.saturating_sub(1)
		}
	}
	fn can_deposit(a: AssetId, w: &Acc, x: Balance, _p: Provenance) -> DepositConsequence {
		if !Supply::contains_key(a) {
			return DepositConsequence::UnknownAsset;
		}
		if Bal::get(a, w).checked_add(x).is_none() {
			return DepositConsequence::Overflow;
		}
		DepositConsequence::Success
	}
	fn can_withdraw(a: AssetId, w: &Acc, x: Balance) -> WithdrawConsequence<Balance> {
		if !Supply::contains_key(a) {
			return WithdrawConsequence::UnknownAsset;
		}
		if Bal::get(a, w) < x {
			return WithdrawConsequence::BalanceLow;
		}
		WithdrawConsequence::Success
	}
	fn asset_exists(a: AssetId) -> bool {
		Supply::contains_key(a)
	}
}
impl fungibles::metadata::Inspect<Acc> for Ledger {
	fn name(_: AssetId) -> Vec<u8> {
		b"N".to_vec()
	}
	fn symbol(_: AssetId) -> Vec<u8> {
		b"S".to_vec()
	}
	fn decimals(_: AssetId) -> u8 {
		unsafe { DECIMALS }
	}
}
impl fungibles::Unbalanced<Acc> for Ledger {
	fn handle_dust(_d: fungibles::Dust<Acc, Self>) {}
	fn write_balance(a: AssetId, w: &Acc, x: Balance) -> Result<Option<Balance>, DispatchError> {
		Bal::insert(a, w, x);
		Ok(None)
	}
	fn set_total_issuance(a: AssetId, x: Balance) {
		Supply::insert(a, x)
	}
}
impl fungibles::Mutate<Acc> for Ledger {
	// pallet_assets: minting nothing is a no-op, also to an account that does not exist
	fn mint_into(a: AssetId, w: &Acc, x: Balance) -> Result<Balance, DispatchError> {
		let s = Supply::get(a).ok_or(TokenError::UnknownAsset)?.checked_add(x).ok_or(ArithmeticError::Overflow)?;
		let b = Bal::get(a, w).checked_add(x).ok_or(ArithmeticError::Overflow)?;
		Supply::insert(a, s);
		Bal::insert(a, w, b);
		Ok(x)
	}
}
impl CreateExt for Ledger {
	type AccountId = Acc;
	fn create(_o: &Acc, _m: Option<Balance>) -> Result<AssetId, DispatchError> {
		let id = Next::get();
		Next::put(id + 1);
		Supply::insert(id, 0u128);
		Ok(id)
	}
	fn create_with_metadata(o: &Acc, _n: Vec<u8>, _s: Vec<u8>, _d: u8, m: Option<Balance>) -> Result<AssetId, DispatchError> {
		<Ledger as CreateExt>::create(o, m)
	}
}
impl TransferExt for Ledger {
	type AccountId = Acc;
	fn split_transfer(who: &Acc, a: AssetId, transfers: &[(Acc, Balance)]) -> DispatchResult {
		with_layer(|| {
			for (t, x) in transfers {
				Ledger::mv(a, who, t, *x)?;
			}
			Ok(())
		})
	}
}
impl Hold for Ledger {
	type AccountId = Acc;
	fn place_hold(_p: PalletId, w: &Acc, a: AssetId, x: Balance) -> DispatchResult {
		let b = Bal::get(a, w).checked_sub(x).ok_or(TokenError::FundsUnavailable)?;
		let h = Held::get(a, w).checked_add(x).ok_or(ArithmeticError::Overflow)?;
		Bal::insert(a, w, b);
		Held::insert(a, w, h);
		Ok(())
	}
	fn release_hold(_p: PalletId, w: &Acc, a: AssetId, x: Balance) -> DispatchResult {
		let h = Held::get(a, w).checked_sub(x).ok_or(TokenError::FundsUnavailable)?;
		let b = Bal::get(a, w).checked_add(x).ok_or(ArithmeticError::Overflow)?;
		Bal::insert(a, w, b);
		Held::insert(a, w, h);
		Ok(())
	}
	fn spend_hold(_p: PalletId, w: &Acc, a: AssetId, spends: &[(Acc, Balance)]) -> DispatchResult {
		with_layer(|| {
			for (t, x) in spends {
				let h = Held::get(a, w).checked_sub(*x).ok_or(TokenError::FundsUnavailable)?;
				Held::insert(a, w, h);
				let b = Bal::get(a, t).checked_add(*x).ok_or(ArithmeticError::Overflow)?;
				Bal::insert(a, t, b);
			}
			Ok(())
		})
	}
}

// ---- recorders standing in for the pallets that only get notified ----
prefix!(RecMoves);
prefix!(RecNew);
prefix!(RecNfi);
prefix!(RecXls);
pub type Moves = StorageValue<RecMoves, Vec<(u32, u32)>, ValueQuery>;
pub type NewAssets = StorageValue<RecNew, Vec<u32>, ValueQuery>;
pub type NfiReqs = StorageValue<RecNfi, Vec<(u32, u32)>, ValueQuery>;
pub type XlsReqs = StorageValue<RecXls, Vec<(u32, u32)>, ValueQuery>;
pub struct Rec;
impl OnTransferSubscriber for Rec {
	fn on_nft_transfer(t: &(u32, u32)) {
		Moves::mutate(|v| v.push(*t))
	}
}
impl OnNewAssetSubscriber<u32> for Rec {
	fn on_asset_create(id: u32, _p: &[u8; 4]) {
		NewAssets::mutate(|v| v.push(id))
	}
}
impl NFIRequest for Rec {
	type AccountId = Acc;
	fn request(_w: &Acc, c: u32, s: Vec<u32>) -> DispatchResult {
		for x in s {
			NfiReqs::mutate(|v| v.push((c, x)))
		}
		Ok(())
	}
	fn on_burn(_t: (u32, u32)) {}
}
impl Xls20MintRequest for Rec {
	type AccountId = Acc;
	fn request_xls20_mint(_w: &Acc, c: u32, s: Vec<u32>, _m: seed_primitives::MetadataScheme) -> DispatchResult {
		for x in s {
			XlsReqs::mutate(|v| v.push((c, x)))
		}
		Ok(())
	}
}
// ---- the bridge: outgoing messages are recorded, or refused ----
prefix!(RecEth);
prefix!(RecEthFail);
pub type EthEvents = StorageValue<RecEth, Vec<(Acc, sp_core::H160, Vec<u8>)>, ValueQuery>;
pub type EthFail = StorageValue<RecEthFail, bool, ValueQuery>;
impl EthereumBridge for Rec {
	fn send_event(s: &sp_core::H160, d: &sp_core::H160, m: &[u8]) -> Result<u64, DispatchError> {
		if EthFail::get() {
			return Err(DispatchError::Other("bridge"));
		}
		EthEvents::mutate(|v| v.push((Acc::from(*s), *d, m.to_vec())));
		Ok(EthEvents::get().len() as u64)
	}
}
/// `a == b` without branching.
pub fn same(a: &Acc, b: &Acc) -> bool {
	a == b
}
prefix!(RecDisp);
prefix!(RecDispFail);
/// The runtime calls dispatched so far: who dispatched them (`None`: root or nobody) and their number.
pub type Dispatched = StorageValue<RecDisp, Vec<(Option<Acc>, u8)>, ValueQuery>;
pub type DispatchFail = StorageValue<RecDispFail, bool, ValueQuery>;
/// `own_call!(T, RtCall, Call<T>)`: a runtime call type holding a call of the pallet under test, or a
/// numbered other call whose dispatch is recorded.
#[macro_export]
macro_rules! own_call {
	($t:ident, $n:ident, $call:ty) => {
		#[derive(Clone, PartialEq, Debug)]
		pub struct $n(pub Option<$call>, pub u8);
		impl Eq for $n {}
		impl $crate::codec::Encode for $n {
			fn encode_to<O: $crate::codec::Output + ?Sized>(&self, _o: &mut O) {}
			fn sclone(&self) -> Self {
				self.clone()
			}
			fn seq(&self, o: &Self) -> bool {
				self == o
			}
		}
		impl $crate::codec::Decode for $n {
			fn decode<I: $crate::codec::Input>(_i: &mut I) -> Result<Self, $crate::codec::Error> {
				Ok($n(None, 0))
			}
		}
		impl From<$crate::frame_system::Call<$t>> for $n {
			fn from(_: $crate::frame_system::Call<$t>) -> Self {
				$n(None, 0)
			}
		}
		impl From<$call> for $n {
			fn from(c: $call) -> Self {
				$n(Some(c), 0)
			}
		}
		impl $crate::frame_support::traits::IsSubType<$call> for $n {
			fn is_sub_type(&self) -> Option<&$call> {
				self.0.as_ref()
			}
		}
		impl $crate::frame_support::dispatch::Dispatchable for $n {
			type RuntimeOrigin = <$t as $crate::frame_system::Config>::RuntimeOrigin;
			type Config = ();
			type Info = $crate::frame_support::dispatch::DispatchInfo;
			type PostInfo = $crate::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, o: Self::RuntimeOrigin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo {
				let who = match o.raw {
					$crate::vstub::system::RawOrigin::Signed(a) => Some(a),
					_ => None,
				};
				$crate::Dispatched::mutate(|v| v.push((who, self.1)));
				if $crate::DispatchFail::get() {
					return Err($crate::sp_runtime::DispatchError::Other("call").into());
				}
				Ok(().into())
			}
		}
		impl $crate::frame_support::traits::UnfilteredDispatchable for $n {
			type RuntimeOrigin = <$t as $crate::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo {
				$crate::frame_support::dispatch::Dispatchable::dispatch(self, o)
			}
		}
		impl $crate::frame_support::dispatch::GetDispatchInfo for $n {
			fn get_dispatch_info(&self) -> $crate::frame_support::dispatch::DispatchInfo {
				Default::default()
			}
		}
		impl $crate::frame_system::offchain::SendTransactionTypes<$call> for $t {
			type Extrinsic = ();
			type OverarchingCall = $n;
		}
		/// The calls the node submitted.
		pub fn submitted() -> Vec<&'static $n> {
			unsafe { (*core::ptr::addr_of!($crate::frame_system::offchain::SUBMITTED)).iter().map(|p| &*(*p as *const $n)).collect() }
		}
	};
}
impl InspectExt for Ledger {
	fn exists(a: AssetId) -> bool {
		Supply::contains_key(a)
	}
}

/// A runtime call made of real pallets' calls. While `Record` is set a dispatch is only recorded (and fails if
/// `DispatchFail` is set); otherwise it runs the pallet.
#[macro_export]
macro_rules! calls {
	($t:ident, $n:ident { $($v:ident: $c:ty),* $(,)? }) => {
		#[derive(Clone, PartialEq, Debug)]
		pub enum $n { None, $($v($c)),* }
		impl Eq for $n {}
		impl $crate::codec::Encode for $n {
			fn encode_to<O: $crate::codec::Output + ?Sized>(&self, _o: &mut O) {}
			fn sclone(&self) -> Self { self.clone() }
			fn seq(&self, o: &Self) -> bool { self == o }
		}
		impl $crate::codec::Decode for $n {
			fn decode<I: $crate::codec::Input>(_i: &mut I) -> Result<Self, $crate::codec::Error> { Ok($n::None) }
		}
		impl From<$crate::frame_system::Call<$t>> for $n {
			fn from(_: $crate::frame_system::Call<$t>) -> Self { $n::None }
		}
		$(impl From<$c> for $n { fn from(c: $c) -> Self { $n::$v(c) } })*
		$(impl $crate::frame_support::traits::IsSubType<$c> for $n {
			fn is_sub_type(&self) -> Option<&$c> { match self { $n::$v(c) => Some(c), _ => None } }
		})*
		/// The recorded dispatches, and whether they are only recorded.
		pub static mut DISPATCHED: Vec<($crate::vstub::system::RawOrigin<$crate::Acc>, $n)> = Vec::new();
		pub static mut RECORD: bool = false;
		pub fn dispatched() -> &'static Vec<($crate::vstub::system::RawOrigin<$crate::Acc>, $n)> { unsafe { &*core::ptr::addr_of!(DISPATCHED) } }
		impl $crate::frame_support::dispatch::Dispatchable for $n {
			type RuntimeOrigin = <$t as $crate::frame_system::Config>::RuntimeOrigin;
			type Config = ();
			type Info = $crate::frame_support::dispatch::DispatchInfo;
			type PostInfo = $crate::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, o: Self::RuntimeOrigin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo {
				if unsafe { RECORD } {
					unsafe { (*core::ptr::addr_of_mut!(DISPATCHED)).push((o.raw, self)) };
					if $crate::DispatchFail::get() {
						return Err($crate::sp_runtime::DispatchError::Other("call").into());
					}
					return Ok(().into());
				}
				match self {
					$n::None => Ok(().into()),
					$($n::$v(c) => $crate::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, o)),*
				}
			}
		}
		impl $crate::frame_support::traits::UnfilteredDispatchable for $n {
			type RuntimeOrigin = <$t as $crate::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> $crate::frame_support::dispatch::DispatchResultWithPostInfo {
				$crate::frame_support::dispatch::Dispatchable::dispatch(self, o)
			}
		}
		impl $crate::frame_support::dispatch::GetDispatchInfo for $n {
			fn get_dispatch_info(&self) -> $crate::frame_support::dispatch::DispatchInfo { Default::default() }
		}
	};
}
/// `pallet_evm::Config` for a harness runtime: gas is one unit per 1000 of weight.
#[macro_export]
macro_rules! evm {
	($t:ident) => {
		$crate::evm!($t, $crate::NoStack);
	};
	($t:ident, $s:ty) => {
		pub struct ToAcc;
		impl $crate::vstub::evm::AddressMapping<$crate::Acc> for ToAcc {
			fn into_account_id(a: $crate::sp_core::H160) -> $crate::Acc { a.into() }
		}
		pub struct Gas;
		impl $crate::vstub::evm::GasWeightMapping for Gas {
			fn gas_to_weight(g: u64, _: bool) -> $crate::vstub::weights::Weight { $crate::vstub::weights::Weight::from_parts(g.saturating_mul(1000), 0) }
			fn weight_to_gas(w: $crate::vstub::weights::Weight) -> u64 { w.ref_time() / 1000 }
		}
		impl $crate::vstub::evm::FeeCalculator for Gas {
			fn min_gas_price() -> ($crate::sp_core::U256, $crate::vstub::weights::Weight) { ($crate::sp_core::U256::from(7_500_000_000_000u64), $crate::vstub::weights::Weight::zero()) }
		}
		impl $crate::vstub::evm::Config for $t {
			type AddressMapping = ToAcc;
			type GasWeightMapping = Gas;
			type FeeCalculator = Gas;
			type Stack = $s;
			type Runner = $s;
		}
	};
}
/// A runner that runs nothing: for harnesses that do not run EVM transactions.
pub struct NoStack;
use vstub::evm::{CallInfo, CreateInfo, EvmConfig, ExitReason, ExitSucceed, RunnerError};
use sp_core::{H160, H256, U256};
impl<T: vstub::evm::Config> vstub::evm::Runner<T> for NoStack {
	type Error = vstub::evm::Error<T>;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<vstub::weights::Weight>, _: Option<u64>, _: &EvmConfig) -> Result<(), RunnerError<Self::Error>> {
		Ok(())
	}
	fn call(_: H160, _: H160, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<vstub::weights::Weight>, _: Option<u64>, _: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>> {
		Ok(CallInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: vec![] })
	}
	fn create(_: H160, _: Vec<u8>, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<vstub::weights::Weight>, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		Ok(CreateInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: H160::zero(), used_gas: Default::default() })
	}
	fn create2(_: H160, _: Vec<u8>, _: H256, _: U256, _: u64, _: Option<U256>, _: Option<U256>, _: Option<U256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: bool, _: Option<vstub::weights::Weight>, _: Option<u64>, _: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>> {
		Ok(CreateInfo { exit_reason: ExitReason::Succeed(ExitSucceed::Returned), value: H160::zero(), used_gas: Default::default() })
	}
}
/// No NFTs: for pallets whose NFT side a harness leaves alone.
pub struct Nfts;
impl seed_pallet_common::NFTExt for Nfts {
	type AccountId = Acc;
	type StringLimit = frame_support::traits::ConstU32<50>;
	fn do_mint(_o: Acc, _c: u32, _q: u32, _to: Option<Acc>) -> DispatchResult {
		unimplemented!()
	}
	fn do_transfer(_o: &Acc, _c: u32, _s: Vec<u32>, _n: &Acc) -> DispatchResult {
		unimplemented!()
	}
	fn do_burn(_w: Acc, _c: u32, _s: u32) -> DispatchResult {
		unimplemented!()
	}
	fn do_create_collection(_o: Acc, _n: frame_support::BoundedVec<u8, frame_support::traits::ConstU32<50>>, _i: u32, _m: Option<u32>, _t: Option<Acc>, _s: seed_primitives::MetadataScheme, _r: Option<seed_primitives::RoyaltiesSchedule<Acc>>, _oc: seed_primitives::OriginChain, _cc: seed_primitives::CrossChainCompatibility) -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn get_token_owner(_t: &seed_primitives::TokenId) -> Option<Acc> {
		None
	}
	fn get_collection_issuance(_c: u32) -> Result<(u32, Option<u32>), DispatchError> {
		unimplemented!()
	}
	fn get_public_mint_info(_c: u32) -> Result<seed_pallet_common::utils::PublicMintInformation, DispatchError> {
		unimplemented!()
	}
	fn transfer_collection_ownership(_w: Acc, _c: u32, _n: Acc) -> DispatchResult {
		unimplemented!()
	}
	fn get_royalties_schedule(_c: u32) -> Result<Option<seed_primitives::RoyaltiesSchedule<Acc>>, DispatchError> {
		Ok(None)
	}
	fn enable_xls20_compatibility(_w: Acc, _c: u32) -> DispatchResult {
		unimplemented!()
	}
	fn next_collection_uuid() -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn increment_collection_uuid() -> DispatchResult {
		unimplemented!()
	}
	fn get_token_lock(_t: seed_primitives::TokenId) -> Option<seed_primitives::TokenLockReason> {
		None
	}
	fn set_token_lock(_t: seed_primitives::TokenId, _l: seed_primitives::TokenLockReason, _w: Acc) -> DispatchResult {
		unimplemented!()
	}
	fn remove_token_lock(_t: seed_primitives::TokenId) {}
	fn get_collection_owner(_c: u32) -> Result<Acc, DispatchError> {
		unimplemented!()
	}
	fn get_cross_chain_compatibility(_c: u32) -> Result<seed_primitives::CrossChainCompatibility, DispatchError> {
		unimplemented!()
	}
}
/// Solidity calldata, written independently of the code under test.
pub mod abi {
	use crate::{sx, Acc};
	use sp_core::{H160, U256};
	#[derive(Clone)]
	pub enum P {
		W([u8; 32]),
		/// an array of words
		A(Vec<[u8; 32]>),
		/// an array of arrays of words
		AA(Vec<Vec<[u8; 32]>>),
		/// a byte string
		B(Vec<u8>),
	}
	pub fn wh(a: H160) -> [u8; 32] {
		let mut w = [0; 32];
		w[12..].copy_from_slice(&a.0);
		w
	}
	pub fn wa(a: &Acc) -> [u8; 32] {
		wh(H160::from(*a))
	}
	pub fn wu(x: U256) -> [u8; 32] {
		let mut w = [0; 32];
		x.to_big_endian(&mut w);
		w
	}
	pub fn wn(x: u128) -> [u8; 32] {
		let mut w = [0; 32];
		w[16..].copy_from_slice(&x.to_be_bytes());
		w
	}
	/// The encoding of a tuple of arguments.
	pub fn tuple(ps: &[P]) -> Vec<u8> {
		let mut head: Vec<u8> = vec![];
		let mut tail: Vec<u8> = vec![];
		for p in ps {
			match p {
				P::W(w) => head.extend_from_slice(w),
				P::A(v) => {
					head.extend_from_slice(&wn((ps.len() * 32 + tail.len()) as u128));
					tail.extend_from_slice(&wn(v.len() as u128));
					for w in v {
						tail.extend_from_slice(w);
					}
				},
				P::AA(v) => {
					head.extend_from_slice(&wn((ps.len() * 32 + tail.len()) as u128));
					tail.extend_from_slice(&wn(v.len() as u128));
					let mut at = v.len() * 32;
					for a in v {
						tail.extend_from_slice(&wn(at as u128));
						at += (a.len() + 1) * 32;
					}
					for a in v {
						tail.extend_from_slice(&wn(a.len() as u128));
						for w in a {
							tail.extend_from_slice(w);
						}
					}
				},
				P::B(v) => {
					head.extend_from_slice(&wn((ps.len() * 32 + tail.len()) as u128));
					tail.extend_from_slice(&wn(v.len() as u128));
					tail.extend_from_slice(v);
					for _ in 0..(32 - v.len() % 32) % 32 {
						tail.push(0);
					}
				},
			}
		}
		head.extend_from_slice(&tail);
		head
	}
	pub fn call(selector: u32, ps: &[P]) -> Vec<u8> {
		let mut v = selector.to_be_bytes().to_vec();
		v.extend_from_slice(&tuple(ps));
		v
	}
	/// Any 256-bit number: either one of at most `bits` bits, which is then known, or a larger one.
	pub fn num(bits: u32) -> (U256, Option<u128>) {
		if sx::bool() {
			let v = sx::u128();
			if bits < 128 {
				sx::assume(v >> bits == 0);
			}
			(U256::from(v), Some(v))
		} else {
			let x = (U256::from(sx::u128()) << 128usize) | U256::from(sx::u128());
			sx::assume(x > U256::from(if bits < 128 { (1u128 << bits) - 1 } else { u128::MAX }));
			(x, None)
		}
	}
}
