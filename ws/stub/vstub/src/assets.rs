//! Model of pallet_assets (single instance; approvals and freezing not modelled beyond the frozen flag).
use crate::cdc::*;
use crate::rt::{traits::*, ArithmeticError, DispatchError, DispatchResult, TokenError};
use crate::storage::{OptionQuery, Slot, StorageDoubleMap, StorageMap, ValueQuery};
use crate::system::{self, ensure_signed, pallet_prelude::OriginFor, RawOrigin};
use crate::traits::{fungibles, tokens::*, Balance as BalanceT, *};
use std::marker::PhantomData;

pub trait Config<I: 'static = ()>: system::Config {
	type Balance: BalanceT;
	type AssetId: Copy + Clone + Encode + Decode + Eq + PartialEq + core::fmt::Debug + From<u32>;
	type AssetIdParameter: From<Self::AssetId> + Into<Self::AssetId> + Encode + Decode + Clone + PartialEq + core::fmt::Debug;
	type Currency: ReservableCurrency<Self::AccountId>;
	type AssetDeposit: Get<<Self::Currency as Currency<Self::AccountId>>::Balance>;
	type WeightInfo: WeightInfo;
}
pub trait WeightInfo {
	fn create() -> crate::weights::Weight;
	fn mint() -> crate::weights::Weight;
	fn burn() -> crate::weights::Weight;
	fn transfer() -> crate::weights::Weight;
	fn transfer_keep_alive() -> crate::weights::Weight;
}
impl WeightInfo for () {
	fn create() -> crate::weights::Weight {
		Default::default()
	}
	fn mint() -> crate::weights::Weight {
		Default::default()
	}
	fn burn() -> crate::weights::Weight {
		Default::default()
	}
	fn transfer() -> crate::weights::Weight {
		Default::default()
	}
	fn transfer_keep_alive() -> crate::weights::Weight {
		Default::default()
	}
}
macro_rules! prefix {
	($n:ident) => {
		pub struct $n;
		impl StorageInstance for $n {
			const STORAGE_PREFIX: &'static str = stringify!($n);
			fn slot() -> &'static mut Slot {
				static mut S: Slot = Slot::NEW;
				unsafe { &mut *core::ptr::addr_of_mut!(S) }
			}
		}
	};
}
prefix!(PAsset);
prefix!(PAccount);
prefix!(PMeta);
#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub enum AssetStatus {
	Live,
	Frozen,
	Destroying,
}
#[derive(Clone, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub struct AssetDetails<B, A> {
	pub owner: A,
	pub issuer: A,
	pub admin: A,
	pub freezer: A,
	pub supply: B,
	pub min_balance: B,
	pub is_sufficient: bool,
	pub status: AssetStatus,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub struct AssetAccount<B> {
	pub balance: B,
	pub frozen: bool,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, vmacros::Encode, vmacros::Decode)]
pub struct AssetMetadata {
	pub name: Vec<u8>,
	pub symbol: Vec<u8>,
	pub decimals: u8,
	pub is_frozen: bool,
}
pub type Asset<T> = StorageMap<PAsset, (), <T as Config>::AssetId, AssetDetails<<T as Config>::Balance, <T as system::Config>::AccountId>, OptionQuery>;
pub type Account<T> =
	StorageDoubleMap<PAccount, (), <T as Config>::AssetId, (), <T as system::Config>::AccountId, AssetAccount<<T as Config>::Balance>, OptionQuery>;
pub type Metadata<T> = StorageMap<PMeta, (), <T as Config>::AssetId, AssetMetadata, ValueQuery>;
pub enum Error<T, I = ()> {
	BalanceLow,
	NoAccount,
	NoPermission,
	Unknown,
	InUse,
	BadMetadata,
	NotFrozen,
	__Ignore(PhantomData<(T, I)>),
}
impl<T, I> From<Error<T, I>> for DispatchError {
	fn from(e: Error<T, I>) -> DispatchError {
		let n = match e {
			Error::BalanceLow => 0,
			Error::NoAccount => 1,
			Error::NoPermission => 2,
			Error::Unknown => 3,
			Error::InUse => 4,
			Error::BadMetadata => 5,
			Error::NotFrozen => 6,
			_ => 255,
		};
		DispatchError::Module(crate::rt::ModuleError { index: 1, error: [n, 0, 0, 0], message: None })
	}
}
pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
type LookupOf<T> = <<T as system::Config>::Lookup as StaticLookup>::Source;
impl<T: Config> Pallet<T> {
	pub fn owner(id: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(id).map(|d| d.owner)
	}
	pub fn maybe_balance(id: T::AssetId, who: &T::AccountId) -> Option<T::Balance> {
		Account::<T>::get(id, who).map(|a| a.balance)
	}
	pub fn balance(id: T::AssetId, who: impl core::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::maybe_balance(id, who.borrow()).unwrap_or_default()
	}
	pub fn total_supply(id: T::AssetId) -> T::Balance {
		Asset::<T>::get(id).map(|x| x.supply).unwrap_or_default()
	}
	fn can_increase(id: T::AssetId, who: &T::AccountId, amount: T::Balance, increase_supply: bool) -> DepositConsequence {
		let d = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return DepositConsequence::UnknownAsset,
		};
		if d.status == AssetStatus::Destroying {
			return DepositConsequence::UnknownAsset;
		}
		if increase_supply && d.supply.checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		match Self::maybe_balance(id, who) {
			Some(b) => {
				if b.checked_add(&amount).is_none() {
					return DepositConsequence::Overflow;
				}
			},
			None => {
				if amount < d.min_balance {
					return DepositConsequence::BelowMinimum;
				}
			},
		}
		DepositConsequence::Success
	}
	fn can_decrease(id: T::AssetId, who: &T::AccountId, amount: T::Balance, keep_alive: bool) -> WithdrawConsequence<T::Balance> {
		use WithdrawConsequence::*;
		let d = match Asset::<T>::get(id) {
			Some(d) => d,
			None => return UnknownAsset,
		};
		if d.supply.checked_sub(&amount).is_none() {
			return Underflow;
		}
		if d.status == AssetStatus::Frozen {
			return Frozen;
		}
		if d.status == AssetStatus::Destroying {
			return UnknownAsset;
		}
		if amount.is_zero() {
			return Success;
		}
		let a = match Account::<T>::get(id, who) {
			Some(a) => a,
			None => return BalanceLow,
		};
		if a.frozen {
			return Frozen;
		}
		match a.balance.checked_sub(&amount) {
			Some(rest) => {
				if rest < d.min_balance {
					if keep_alive {
						WouldDie
					} else {
						ReducedToZero(rest)
					}
				} else {
					Success
				}
			},
			None => BalanceLow,
		}
	}
	fn reducible(id: T::AssetId, who: &T::AccountId, keep_alive: bool) -> Result<T::Balance, DispatchError> {
		let d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		if d.status != AssetStatus::Live {
			return Err(TokenError::Frozen.into());
		}
		let a = Account::<T>::get(id, who).ok_or(Error::<T>::NoAccount)?;
		if a.frozen {
			return Err(TokenError::Frozen.into());
		}
		let amount = if keep_alive { a.balance.saturating_sub(d.min_balance) } else { a.balance };
		Ok(amount.min(d.supply))
	}
	fn decrease(
		id: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		keep_alive: bool,
		best_effort: bool,
		check: impl FnOnce(T::Balance, &mut AssetDetails<T::Balance, T::AccountId>) -> DispatchResult,
	) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() {
			return Ok(amount);
		}
		let actual = Self::reducible(id, who, keep_alive)?.min(amount);
		if !(best_effort || actual >= amount) {
			return Err(Error::<T>::BalanceLow.into());
		}
		let dust = Self::can_decrease(id, who, actual, keep_alive).into_result(keep_alive)?;
		let actual = actual.saturating_add(dust);
		let mut d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		check(actual, &mut d)?;
		let mut a = Account::<T>::get(id, who).ok_or(Error::<T>::NoAccount)?;
		a.balance = a.balance.saturating_sub(actual);
		if a.balance < d.min_balance {
			Account::<T>::remove(id, who);
		} else {
			Account::<T>::insert(id, who, a);
		}
		Asset::<T>::insert(id, d);
		Ok(actual)
	}
	fn increase(
		id: T::AssetId,
		who: &T::AccountId,
		amount: T::Balance,
		check: impl FnOnce(&mut AssetDetails<T::Balance, T::AccountId>) -> DispatchResult,
	) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		Self::can_increase(id, who, amount, true).into_result()?;
		let mut d = Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		check(&mut d)?;
		match Account::<T>::get(id, who) {
			Some(mut a) => {
				a.balance = a.balance.saturating_add(amount);
				Account::<T>::insert(id, who, a)
			},
			None => {
				if amount < d.min_balance {
					return Err(TokenError::BelowMinimum.into());
				}
				Account::<T>::insert(id, who, AssetAccount { balance: amount, frozen: false })
			},
		}
		Asset::<T>::insert(id, d);
		Ok(())
	}
	// extrinsics
	pub fn mint(origin: OriginFor<T>, id: T::AssetIdParameter, beneficiary: LookupOf<T>, amount: T::Balance) -> DispatchResult {
		let origin = ensure_signed(origin)?;
		let who = T::Lookup::lookup(beneficiary)?;
		let id: T::AssetId = id.into();
		Self::increase(id, &who, amount, |d| {
			if d.issuer != origin {
				return Err(Error::<T>::NoPermission.into());
			}
			d.supply = d.supply.saturating_add(amount);
			Ok(())
		})
	}
	pub fn burn(origin: OriginFor<T>, id: T::AssetIdParameter, who: LookupOf<T>, amount: T::Balance) -> DispatchResult {
		let origin = ensure_signed(origin)?;
		let who = T::Lookup::lookup(who)?;
		let id: T::AssetId = id.into();
		Self::decrease(id, &who, amount, false, true, |actual, d| {
			if d.admin != origin {
				return Err(Error::<T>::NoPermission.into());
			}
			d.supply = d.supply.saturating_sub(actual);
			Ok(())
		})?;
		Ok(())
	}
	pub fn force_set_metadata(origin: OriginFor<T>, id: T::AssetIdParameter, name: Vec<u8>, symbol: Vec<u8>, decimals: u8, is_frozen: bool) -> DispatchResult {
		crate::system::ensure_root::<OriginFor<T>, T::AccountId>(origin)?;
		let id: T::AssetId = id.into();
		Asset::<T>::get(id).ok_or(Error::<T>::Unknown)?;
		Metadata::<T>::insert(id, AssetMetadata { name, symbol, decimals, is_frozen });
		Ok(())
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = T::AssetId;
	type Balance = T::Balance;
	fn total_issuance(asset: T::AssetId) -> T::Balance {
		Self::total_supply(asset)
	}
	fn minimum_balance(asset: T::AssetId) -> T::Balance {
		Asset::<T>::get(asset).map(|x| x.min_balance).unwrap_or_default()
	}
	fn balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::maybe_balance(asset, who).unwrap_or_default()
	}
	fn total_balance(asset: T::AssetId, who: &T::AccountId) -> T::Balance {
		Self::maybe_balance(asset, who).unwrap_or_default()
	}
	fn reducible_balance(asset: T::AssetId, who: &T::AccountId, preservation: Preservation, _f: Fortitude) -> T::Balance {
		Self::reducible(asset, who, preservation != Preservation::Expendable).unwrap_or_default()
	}
	fn can_deposit(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		Self::can_increase(asset, who, amount, provenance == Provenance::Minted)
	}
	fn can_withdraw(asset: T::AssetId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		Self::can_decrease(asset, who, amount, false)
	}
	fn asset_exists(asset: T::AssetId) -> bool {
		Asset::<T>::contains_key(asset)
	}
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_raw_dust(_: T::AssetId, _: T::Balance) {}
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(_: T::AssetId, _: &T::AccountId, _: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		unreachable!("write_balance is not used if other functions are impl'd")
	}
	fn set_total_issuance(id: T::AssetId, amount: T::Balance) {
		Asset::<T>::mutate_exists(id, |m| {
			if let Some(d) = m {
				d.supply = amount
			}
		})
	}
	fn decrease_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, precision: Precision, preservation: Preservation, _f: Fortitude) -> Result<T::Balance, DispatchError> {
		Self::decrease(asset, who, amount, preservation != Preservation::Expendable, precision == Precision::BestEffort, |_, _| Ok(()))
	}
	fn increase_balance(asset: T::AssetId, who: &T::AccountId, amount: T::Balance, _p: Precision) -> Result<T::Balance, DispatchError> {
		Self::increase(asset, who, amount, |_| Ok(()))?;
		Ok(amount)
	}
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {}
impl<T: Config> fungibles::Create<T::AccountId> for Pallet<T> {
	fn create(id: T::AssetId, admin: T::AccountId, is_sufficient: bool, min_balance: T::Balance) -> DispatchResult {
		if Asset::<T>::contains_key(id) {
			return Err(Error::<T>::InUse.into());
		}
		Asset::<T>::insert(
			id,
			AssetDetails {
				owner: admin.clone(),
				issuer: admin.clone(),
				admin: admin.clone(),
				freezer: admin,
				supply: Zero::zero(),
				min_balance,
				is_sufficient,
				status: AssetStatus::Live,
			},
		);
		Ok(())
	}
}
impl<T: Config> fungibles::metadata::Inspect<T::AccountId> for Pallet<T> {
	fn name(a: T::AssetId) -> Vec<u8> {
		Metadata::<T>::get(a).name
	}
	fn symbol(a: T::AssetId) -> Vec<u8> {
		Metadata::<T>::get(a).symbol
	}
	fn decimals(a: T::AssetId) -> u8 {
		Metadata::<T>::get(a).decimals
	}
}
impl<T: Config> fungibles::roles::Inspect<T::AccountId> for Pallet<T> {
	fn owner(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|d| d.owner)
	}
	fn issuer(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|d| d.issuer)
	}
	fn admin(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|d| d.admin)
	}
	fn freezer(a: T::AssetId) -> Option<T::AccountId> {
		Asset::<T>::get(a).map(|d| d.freezer)
	}
}
#[allow(unused)]
fn _x(_: ArithmeticError) {}
#[allow(unused)]
fn _y<A>(_: RawOrigin<A>) {}
