//! Model of frame_support::traits.
use crate::cdc::*;
use crate::rt::{traits::*, ArithmeticError, DispatchError, DispatchResult, TokenError};
use crate::storage::Slot;

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
macro_rules! cst {
	($n:ident, $t:ty) => {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
		pub struct $n<const N: $t>;
		impl<const N: $t> Get<$t> for $n<N> {
			fn get() -> $t {
				N
			}
		}
		impl<const N: $t> Get<Option<$t>> for $n<N> {
			fn get() -> Option<$t> {
				Some(N)
			}
		}
	};
}
cst!(ConstU8, u8);
cst!(ConstU16, u16);
cst!(ConstU32, u32);
cst!(ConstU64, u64);
cst!(ConstU128, u128);
cst!(ConstBool, bool);
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
pub trait StorageInstance {
	const STORAGE_PREFIX: &'static str;
	fn slot() -> &'static mut Slot;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct StorageVersion(u16);
static mut STORAGE_VERSION: u16 = 0;
impl StorageVersion {
	pub const fn new(n: u16) -> Self {
		StorageVersion(n)
	}
	pub fn get_raw() -> Self {
		StorageVersion(unsafe { STORAGE_VERSION })
	}
	pub fn put<P>(&self) {
		unsafe { STORAGE_VERSION = self.0 }
	}
	pub fn get<P>() -> Self {
		Self::get_raw()
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(o)
	}
}
pub trait GetStorageVersion {
	fn current_storage_version() -> StorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::support::dispatch::DispatchResultWithPostInfo;
}
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
pub trait FindAuthor<A> {
	fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(digests: I) -> Option<A>;
}
impl<A> FindAuthor<A> for () {
	fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(_: I) -> Option<A> {
		None
	}
}
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait ValidatorSet<AccountId> {
	type ValidatorId: Clone + Encode + Decode + PartialEq + core::fmt::Debug;
	type ValidatorIdOf: Convert<AccountId, Option<Self::ValidatorId>>;
	fn session_index() -> u32;
	fn validators() -> Vec<Self::ValidatorId>;
}
pub trait OneSessionHandler<V> {
	type Key: Decode;
	fn on_genesis_session<'a, I: 'a>(validators: I)
	where
		I: Iterator<Item = (&'a V, Self::Key)>,
		V: 'a;
	fn on_new_session<'a, I: 'a>(changed: bool, validators: I, queued_validators: I)
	where
		I: Iterator<Item = (&'a V, Self::Key)>,
		V: 'a;
	fn on_before_session_ending() {}
	fn on_disabled(_validator_index: u32);
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(&self) -> Option<&Self::AccountId>;
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub trait Hooks<B> {
	fn on_initialize(_n: B) -> crate::weights::Weight {
		crate::weights::Weight::zero()
	}
	fn on_finalize(_n: B) {}
	fn on_idle(_n: B, _w: crate::weights::Weight) -> crate::weights::Weight {
		crate::weights::Weight::zero()
	}
	fn on_runtime_upgrade() -> crate::weights::Weight {
		crate::weights::Weight::zero()
	}
	fn offchain_worker(_n: B) {}
	fn integrity_test() {}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> crate::weights::Weight {
		crate::weights::Weight::zero()
	}
}
pub trait BuildGenesisConfig {
	fn build(&self);
}
pub trait PalletInfoAccess {
	fn name() -> &'static str;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_module_names() -> &'static [&'static str] {
		&[]
	}
	fn get_call_names(_m: &str) -> &'static [&'static str] {
		&[]
	}
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait Randomness<Output, B> {
	fn random(s: &[u8]) -> (Output, B);
}
pub trait KeyOwnerProofSystem<K> {}
pub trait EstimateNextSessionRotation<B> {}
pub trait OnNewAccount<A> {
	fn on_new_account(_: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {}
pub mod schedule {
	use super::*;
	pub type Period<B> = (B, u32);
	pub type Priority = u8;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DispatchTime<B> {
		At(B),
		After(B),
	}
	pub enum LookupError {
		Unknown,
		BadFormat,
	}
	pub trait Anon<BlockNumber, Call, RuntimeOrigin> {
		type Address;
		fn schedule(when: DispatchTime<BlockNumber>, maybe_periodic: Option<Period<BlockNumber>>, priority: Priority, origin: RuntimeOrigin, call: Call) -> Result<Self::Address, DispatchError>;
		fn cancel(address: Self::Address) -> Result<(), ()>;
	}
	pub trait Named<BlockNumber, Call, RuntimeOrigin> {}
}

// ---------------- currency ----------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(pub i8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn all() -> Self {
		Self(31)
	}
	pub fn except(o: Self) -> Self {
		Self(31 & !o.0)
	}
	pub fn empty() -> Self {
		Self(0)
	}
	pub fn contains(&self, o: Self) -> bool {
		self.0 & o.0 == o.0
	}
}
impl core::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
pub trait TryDrop: Sized {
	fn try_drop(self) -> Result<(), Self>;
}
impl TryDrop for () {
	fn try_drop(self) -> Result<(), Self> {
		Ok(())
	}
}
pub enum SameOrOther<A, B> {
	None,
	Same(A),
	Other(B),
}
impl<A, B> SameOrOther<A, B> {
	pub fn same(self) -> Result<A, B>
	where
		A: Default,
	{
		match self {
			SameOrOther::Same(a) => Ok(a),
			SameOrOther::None => Ok(A::default()),
			SameOrOther::Other(b) => Err(b),
		}
	}
	pub fn try_drop(self) -> Result<(), Self> {
		match self {
			SameOrOther::None => Ok(()),
			x => Err(x),
		}
	}
}
pub trait Imbalance<Balance>: Sized + TryDrop + Default {
	type Opposite: Imbalance<Balance>;
	fn zero() -> Self;
	fn drop_zero(self) -> Result<(), Self>;
	fn split(self, amount: Balance) -> (Self, Self);
	fn ration(self, first: u32, second: u32) -> (Self, Self)
	where
		Balance: From<u32> + Saturating + core::ops::Div<Output = Balance>,
	{
		let total: u32 = first.saturating_add(second);
		if total == 0 {
			return (Self::zero(), Self::zero());
		}
		let amount1 = self.peek().saturating_mul(first.into()) / total.into();
		self.split(amount1)
	}
	fn merge(self, other: Self) -> Self;
	fn subsume(&mut self, other: Self);
	fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
	fn peek(&self) -> Balance;
}
pub enum SignedImbalance<B, P: Imbalance<B>> {
	Positive(P),
	Negative(P::Opposite),
}
pub trait OnUnbalanced<Im> {
	fn on_unbalanceds<B>(amounts: impl Iterator<Item = Im>)
	where
		Im: Imbalance<B>,
	{
		Self::on_unbalanced(amounts.fold(Im::zero(), |i, x| x.merge(i)))
	}
	fn on_unbalanced(amount: Im) {
		Self::on_nonzero_unbalanced(amount)
	}
	fn on_nonzero_unbalanced(amount: Im) {
		drop(amount)
	}
}
impl<Im> OnUnbalanced<Im> for () {}
pub trait Currency<AccountId> {
	type Balance: Balance;
	type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
	type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn can_slash(who: &AccountId, value: Self::Balance) -> bool;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance {
		Self::total_issuance()
	}
	fn deactivate(_: Self::Balance) {}
	fn reactivate(_: Self::Balance) {}
	fn minimum_balance() -> Self::Balance;
	fn burn(amount: Self::Balance) -> Self::PositiveImbalance;
	fn issue(amount: Self::Balance) -> Self::NegativeImbalance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn ensure_can_withdraw(who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons, new_balance: Self::Balance) -> DispatchResult;
	fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, existence_requirement: ExistenceRequirement) -> DispatchResult;
	fn slash(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
	fn deposit_into_existing(who: &AccountId, value: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
	fn resolve_into_existing(who: &AccountId, value: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> {
		let v = value.peek();
		match Self::deposit_into_existing(who, v) {
			Ok(opposite) => Ok(drop(value.offset(opposite))),
			_ => Err(value),
		}
	}
	fn deposit_creating(who: &AccountId, value: Self::Balance) -> Self::PositiveImbalance;
	fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance) {
		let v = value.peek();
		drop(value.offset(Self::deposit_creating(who, v)));
	}
	fn withdraw(who: &AccountId, value: Self::Balance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
	fn settle(who: &AccountId, value: Self::PositiveImbalance, reasons: WithdrawReasons, liveness: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> {
		let v = value.peek();
		match Self::withdraw(who, v, reasons, liveness) {
			Ok(opposite) => Ok(drop(value.offset(opposite))),
			_ => Err(value),
		}
	}
	fn make_free_balance_be(who: &AccountId, balance: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
	fn slash_reserved(who: &AccountId, value: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(slashed: &AccountId, beneficiary: &AccountId, value: Self::Balance, status: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait LockableCurrency<A>: Currency<A> {}

pub trait Balance: AtLeast32BitUnsigned + Encode + Decode + Copy + Default + core::fmt::Debug + Member {}
impl<T: AtLeast32BitUnsigned + Encode + Decode + Copy + Default + core::fmt::Debug + Member> Balance for T {}
pub mod tokens {
	use super::*;
	pub use super::{fungible, fungibles, Balance, BalanceStatus, ExistenceRequirement, WithdrawReasons};
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum WithdrawConsequence<B> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(B),
		Success,
	}
	impl<B: Zero> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use WithdrawConsequence::*;
			match self {
				BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WouldDie => Err(TokenError::OnlyProvider.into()),
				UnknownAsset => Err(TokenError::UnknownAsset.into()),
				Underflow => Err(ArithmeticError::Underflow.into()),
				Overflow => Err(ArithmeticError::Overflow.into()),
				Frozen => Err(TokenError::Frozen.into()),
				ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				ReducedToZero(result) => Ok(result),
				Success => Ok(Zero::zero()),
			}
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	impl DepositConsequence {
		pub fn into_result(self) -> Result<(), DispatchError> {
			use DepositConsequence::*;
			Err(match self {
				BelowMinimum => TokenError::BelowMinimum.into(),
				CannotCreate => TokenError::CannotCreate.into(),
				UnknownAsset => TokenError::UnknownAsset.into(),
				Overflow => ArithmeticError::Overflow.into(),
				Blocked => TokenError::Blocked.into(),
				Success => return Ok(()),
			})
		}
	}
}
use tokens::*;
pub mod fungible {
	use super::*;
	pub struct Dust<A, T: Unbalanced<A> + ?Sized>(pub T::Balance);
	pub trait Inspect<AccountId>: Sized {
		type Balance: Balance;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn balance(who: &AccountId) -> Self::Balance;
		fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
		fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
		fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn handle_raw_dust(amount: Self::Balance) {
			Self::handle_dust(Dust(amount))
		}
		fn handle_dust(dust: Dust<AccountId, Self>);
		fn write_balance(who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
		fn set_total_issuance(amount: Self::Balance);
		fn decrease_balance(who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance(who);
			let free = Self::reducible_balance(who, preservation, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(free);
			}
			let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			if let Some(dust) = Self::write_balance(who, new_balance)? {
				Self::handle_dust(Dust(dust));
			}
			Ok(old_balance.saturating_sub(new_balance))
		}
		fn increase_balance(who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance(who);
			let new_balance = if let Precision::BestEffort = precision {
				old_balance.saturating_add(amount)
			} else {
				old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			if new_balance < Self::minimum_balance() {
				if let Precision::BestEffort = precision {
					Ok(Self::Balance::default())
				} else {
					Err(TokenError::BelowMinimum.into())
				}
			} else if new_balance == old_balance {
				Ok(Self::Balance::default())
			} else {
				if let Some(dust) = Self::write_balance(who, new_balance)? {
					Self::handle_dust(Dust(dust));
				}
				Ok(new_balance.saturating_sub(old_balance))
			}
		}
		fn deactivate(_: Self::Balance) {}
		fn reactivate(_: Self::Balance) {}
	}
	pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
		fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			Self::total_issuance().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::increase_balance(who, amount, Precision::Exact)?;
			Self::set_total_issuance(Self::total_issuance().saturating_add(actual));
			Self::done_mint_into(who, amount);
			Ok(actual)
		}
		fn burn_from(who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let actual = Self::reducible_balance(who, Preservation::Expendable, force).min(amount);
			if !(actual == amount || precision == Precision::BestEffort) {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::total_issuance().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::decrease_balance(who, actual, Precision::BestEffort, Preservation::Expendable, force)?;
			Self::set_total_issuance(Self::total_issuance().saturating_sub(actual));
			Self::done_burn_from(who, actual);
			Ok(actual)
		}
		fn transfer(source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
			let _extra = Self::can_withdraw(source, amount).into_result(preservation != Preservation::Expendable)?;
			Self::can_deposit(dest, amount, Provenance::Extant).into_result()?;
			if source == dest {
				return Ok(amount);
			}
			Self::decrease_balance(source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
			let _ = Self::increase_balance(dest, amount, Precision::BestEffort);
			Self::done_transfer(source, dest, amount);
			Ok(amount)
		}
		fn done_mint_into(_who: &AccountId, _amount: Self::Balance) {}
		fn done_burn_from(_who: &AccountId, _amount: Self::Balance) {}
		fn done_transfer(_s: &AccountId, _d: &AccountId, _amount: Self::Balance) {}
	}
}
pub mod fungibles {
	use super::*;
	pub struct Dust<A, T: Unbalanced<A> + ?Sized>(pub T::AssetId, pub T::Balance);
	pub trait Inspect<AccountId>: Sized {
		type AssetId: Copy + Clone + Encode + Decode + Eq + PartialEq + core::fmt::Debug;
		type Balance: Balance;
		fn total_issuance(asset: Self::AssetId) -> Self::Balance;
		fn active_issuance(asset: Self::AssetId) -> Self::Balance {
			Self::total_issuance(asset)
		}
		fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
		fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
		fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
		fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
		fn asset_exists(asset: Self::AssetId) -> bool;
	}
	pub mod metadata {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn name(asset: Self::AssetId) -> Vec<u8>;
			fn symbol(asset: Self::AssetId) -> Vec<u8>;
			fn decimals(asset: Self::AssetId) -> u8;
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn set(asset: Self::AssetId, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult;
		}
	}
	pub mod roles {
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn owner(asset: Self::AssetId) -> Option<AccountId>;
			fn issuer(asset: Self::AssetId) -> Option<AccountId>;
			fn admin(asset: Self::AssetId) -> Option<AccountId>;
			fn freezer(asset: Self::AssetId) -> Option<AccountId>;
		}
	}
	pub mod approvals {
		use super::*;
		pub trait Inspect<AccountId>: super::Inspect<AccountId> {
			fn allowance(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId) -> Self::Balance;
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn approve(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn transfer_from(asset: Self::AssetId, owner: &AccountId, delegate: &AccountId, dest: &AccountId, amount: Self::Balance) -> DispatchResult;
		}
	}
	pub trait Create<AccountId>: Inspect<AccountId> {
		fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {
		fn handle_raw_dust(asset: Self::AssetId, amount: Self::Balance) {
			Self::handle_dust(Dust(asset, amount))
		}
		fn handle_dust(dust: Dust<AccountId, Self>);
		fn write_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
		fn set_total_issuance(asset: Self::AssetId, amount: Self::Balance);
		fn decrease_balance(
			asset: Self::AssetId,
			who: &AccountId,
			mut amount: Self::Balance,
			precision: Precision,
			preservation: Preservation,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance(asset, who);
			let free = Self::reducible_balance(asset, who, preservation, force);
			if let Precision::BestEffort = precision {
				amount = amount.min(free);
			}
			let new_balance = old_balance.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
			if let Some(dust) = Self::write_balance(asset, who, new_balance)? {
				Self::handle_dust(Dust(asset, dust));
			}
			Ok(old_balance.saturating_sub(new_balance))
		}
		fn increase_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let old_balance = Self::balance(asset, who);
			let new_balance = if let Precision::BestEffort = precision {
				old_balance.saturating_add(amount)
			} else {
				old_balance.checked_add(&amount).ok_or(ArithmeticError::Overflow)?
			};
			if new_balance < Self::minimum_balance(asset) {
				if let Precision::BestEffort = precision {
					Ok(Self::Balance::default())
				} else {
					Err(TokenError::BelowMinimum.into())
				}
			} else if new_balance == old_balance {
				Ok(Self::Balance::default())
			} else {
				if let Some(dust) = Self::write_balance(asset, who, new_balance)? {
					Self::handle_dust(Dust(asset, dust));
				}
				Ok(new_balance.saturating_sub(old_balance))
			}
		}
		fn deactivate(_asset: Self::AssetId, _: Self::Balance) {}
		fn reactivate(_asset: Self::AssetId, _: Self::Balance) {}
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
		fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
			Self::total_issuance(asset).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::increase_balance(asset, who, amount, Precision::Exact)?;
			Self::set_total_issuance(asset, Self::total_issuance(asset).saturating_add(actual));
			Self::done_mint_into(asset, who, amount);
			Ok(actual)
		}
		fn burn_from(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
			let actual = Self::reducible_balance(asset, who, Preservation::Expendable, force).min(amount);
			if !(actual == amount || precision == Precision::BestEffort) {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::total_issuance(asset).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
			let actual = Self::decrease_balance(asset, who, actual, Precision::BestEffort, Preservation::Expendable, force)?;
			Self::set_total_issuance(asset, Self::total_issuance(asset).saturating_sub(actual));
			Self::done_burn_from(asset, who, actual);
			Ok(actual)
		}
		fn transfer(asset: Self::AssetId, source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
			let _extra = Self::can_withdraw(asset, source, amount).into_result(preservation != Preservation::Expendable)?;
			Self::can_deposit(asset, dest, amount, Provenance::Extant).into_result()?;
			Self::decrease_balance(asset, source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
			let _ = Self::increase_balance(asset, dest, amount, Precision::BestEffort);
			Self::done_transfer(asset, source, dest, amount);
			Ok(amount)
		}
		fn set_balance(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) -> Self::Balance {
			unimplemented!()
		}
		fn done_mint_into(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
		fn done_burn_from(_asset: Self::AssetId, _who: &AccountId, _amount: Self::Balance) {}
		fn done_transfer(_asset: Self::AssetId, _s: &AccountId, _d: &AccountId, _amount: Self::Balance) {}
	}
	// legacy aliases used by some pallets
	pub trait Transfer<A>: Mutate<A> {}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
