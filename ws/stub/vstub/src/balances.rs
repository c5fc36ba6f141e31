//! Model of pallet_balances (fungible + Currency semantics; no locks/freezes, reserves supported).
use crate::cdc::*;
use crate::rt::{traits::*, ArithmeticError, DispatchError, DispatchResult, TokenError};
use crate::storage::{OptionQuery, Slot, StorageMap, StorageValue, ValueQuery};
use crate::traits::{fungible, tokens::*, Balance as BalanceT, *};
use crate::system;
use std::marker::PhantomData;

pub trait Config<I: 'static = ()>: system::Config {
	type Balance: BalanceT + From<u8>;
	type ExistentialDeposit: Get<Self::Balance>;
	type ReserveIdentifier;
}
macro_rules! prefix {
	($n:ident) => {
		pub struct $n;
		impl StorageInstance for $n {
			const STORAGE_PREFIX: &'static str = stringify!($n);
			fn slot() -> &'static mut Slot {
				static mut S: Slot = Slot::NEW;
				unsafe { &mut *core::ptr::addr_of_mut!(S) }
			}
		}
	};
}
prefix!(PTi);
prefix!(PAcc);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, vmacros::Encode, vmacros::Decode)]
pub struct AccountData<B> {
	pub free: B,
	pub reserved: B,
	pub frozen: B,
}
pub type TotalIssuance<T> = StorageValue<PTi, <T as Config>::Balance, ValueQuery>;
pub type Account<T> = StorageMap<PAcc, (), <T as system::Config>::AccountId, AccountData<<T as Config>::Balance>, ValueQuery>;
pub enum Error<T> {
	InsufficientBalance,
	__Ignore(PhantomData<T>),
}
pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
pub type BalanceOf<T> = <T as Config>::Balance;
impl<T: Config> Pallet<T> {
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		Account::<T>::get(who)
	}
	fn set(who: &T::AccountId, a: AccountData<T::Balance>) -> Option<T::Balance> {
		// accounts below the existential deposit with nothing reserved are removed and dusted
		let ed = T::ExistentialDeposit::get();
		if a.free + a.reserved < ed && a.reserved.is_zero() {
			Account::<T>::remove(who);
			if a.free.is_zero() {
				None
			} else {
				Some(a.free)
			}
		} else {
			Account::<T>::insert(who, a);
			None
		}
	}
	fn burn_dust(d: T::Balance) {
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(d));
	}
	pub fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	pub fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free + a.reserved
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = T::Balance::zero();
		if force == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		// the balance reference is taken to be the only provider reference
		if preservation == Preservation::Preserve || preservation == Preservation::Protect && !a.free.is_zero() {
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success;
		}
		if provenance == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow;
		}
		let a = Self::account(who);
		let new_total = match (a.free + a.reserved).checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) => x,
		};
		if new_total < T::ExistentialDeposit::get() {
			return DepositConsequence::BelowMinimum;
		}
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success;
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow;
		}
		let a = Self::account(who);
		if a.free.checked_sub(&amount).is_none() {
			return WithdrawConsequence::BalanceLow;
		}
		let liquid = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen;
		}
		let new_total = a.free + a.reserved - amount;
		if new_total < T::ExistentialDeposit::get() {
			WithdrawConsequence::ReducedToZero(new_total)
		} else {
			WithdrawConsequence::Success
		}
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(dust: fungible::Dust<T::AccountId, Self>) {
		Self::burn_dust(dust.0)
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let mut a = Self::account(who);
		let reduction = a.free.saturating_sub(amount);
		if reduction > max_reduction {
			return Err(TokenError::FundsUnavailable.into());
		}
		a.free = amount;
		Ok(Self::set(who, a))
	}
	fn set_total_issuance(amount: T::Balance) {
		TotalIssuance::<T>::put(amount)
	}
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {}

pub struct PositiveImbalance<T: Config, I = ()>(T::Balance, PhantomData<I>);
pub struct NegativeImbalance<T: Config, I = ()>(T::Balance, PhantomData<I>);
macro_rules! imb {
	($a:ident, $b:ident, $drop:expr) => {
		impl<T: Config> $a<T> {
			pub fn new(x: T::Balance) -> Self {
				$a(x, PhantomData)
			}
		}
		impl<T: Config> Default for $a<T> {
			fn default() -> Self {
				Self::new(T::Balance::zero())
			}
		}
		impl<T: Config> TryDrop for $a<T> {
			fn try_drop(self) -> Result<(), Self> {
				self.drop_zero()
			}
		}
		impl<T: Config> Imbalance<T::Balance> for $a<T> {
			type Opposite = $b<T>;
			fn zero() -> Self {
				Self::default()
			}
			fn drop_zero(self) -> Result<(), Self> {
				if self.0.is_zero() {
					core::mem::forget(self);
					Ok(())
				} else {
					Err(self)
				}
			}
			fn split(self, amount: T::Balance) -> (Self, Self) {
				let first = self.0.min(amount);
				let second = self.0 - first;
				core::mem::forget(self);
				(Self::new(first), Self::new(second))
			}
			fn merge(mut self, other: Self) -> Self {
				self.0 = self.0.saturating_add(other.0);
				core::mem::forget(other);
				self
			}
			fn subsume(&mut self, other: Self) {
				self.0 = self.0.saturating_add(other.0);
				core::mem::forget(other);
			}
			fn offset(self, other: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
				let (a, b) = (self.0, other.0);
				core::mem::forget(self);
				core::mem::forget(other);
				if a > b {
					SameOrOther::Same(Self::new(a - b))
				} else if b > a {
					SameOrOther::Other($b::new(b - a))
				} else {
					SameOrOther::None
				}
			}
			fn peek(&self) -> T::Balance {
				self.0
			}
		}
	};
}
imb!(PositiveImbalance, NegativeImbalance, ());
imb!(NegativeImbalance, PositiveImbalance, ());
impl<T: Config, I> Drop for PositiveImbalance<T, I> {
	fn drop(&mut self) {
		let v = self.0;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(v));
	}
}
impl<T: Config, I> Drop for NegativeImbalance<T, I> {
	fn drop(&mut self) {
		let v = self.0;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(v));
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free + a.reserved
	}
	fn can_slash(who: &T::AccountId, value: T::Balance) -> bool {
		value.is_zero() || Self::account(who).free >= value
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn burn(mut amount: T::Balance) -> PositiveImbalance<T> {
		TotalIssuance::<T>::mutate(|t| {
			*t = t.checked_sub(&amount).unwrap_or_else(|| {
				amount = *t;
				Zero::zero()
			})
		});
		PositiveImbalance::new(amount)
	}
	fn issue(mut amount: T::Balance) -> NegativeImbalance<T> {
		TotalIssuance::<T>::mutate(|t| {
			*t = t.checked_add(&amount).unwrap_or_else(|| {
				amount = T::Balance::max_value() - *t;
				T::Balance::max_value()
			})
		});
		NegativeImbalance::new(amount)
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn ensure_can_withdraw(_who: &T::AccountId, _amount: T::Balance, _r: WithdrawReasons, _new: T::Balance) -> DispatchResult {
		Ok(())
	}
	fn transfer(source: &T::AccountId, dest: &T::AccountId, value: T::Balance, er: ExistenceRequirement) -> DispatchResult {
		if value.is_zero() || source == dest {
			return Ok(());
		}
		let keep = match er {
			ExistenceRequirement::KeepAlive => Preservation::Preserve,
			_ => Preservation::Expendable,
		};
		<Self as fungible::Mutate<_>>::transfer(source, dest, value, keep)?;
		Ok(())
	}
	fn slash(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		let mut a = Self::account(who);
		let actual = a.free.min(value);
		a.free = a.free - actual;
		if let Some(d) = Self::set(who, a) {
			Self::burn_dust(d)
		}
		(NegativeImbalance::new(actual), value - actual)
	}
	fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
		if value.is_zero() {
			return Ok(PositiveImbalance::zero());
		}
		let mut a = Self::account(who);
		if (a.free + a.reserved).is_zero() {
			return Err(DispatchError::Other("DeadAccount"));
		}
		a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
		if let Some(d) = Self::set(who, a) {
			Self::burn_dust(d)
		}
		Ok(PositiveImbalance::new(value))
	}
	fn deposit_creating(who: &T::AccountId, value: T::Balance) -> PositiveImbalance<T> {
		if value.is_zero() {
			return PositiveImbalance::zero();
		}
		let mut a = Self::account(who);
		if value < T::ExistentialDeposit::get() && (a.free + a.reserved).is_zero() {
			return PositiveImbalance::zero();
		}
		a.free = match a.free.checked_add(&value) {
			Some(x) => x,
			None => return PositiveImbalance::zero(),
		};
		if let Some(d) = Self::set(who, a) {
			Self::burn_dust(d)
		}
		PositiveImbalance::new(value)
	}
	fn withdraw(who: &T::AccountId, value: T::Balance, _r: WithdrawReasons, liveness: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance::zero());
		}
		let mut a = Self::account(who);
		let new = a.free.checked_sub(&value).ok_or(TokenError::FundsUnavailable)?;
		let ed = T::ExistentialDeposit::get();
		let would_be_dead = new < ed;
		let would_kill = would_be_dead && a.free >= ed;
		if !(liveness == ExistenceRequirement::AllowDeath || !would_kill) {
			return Err(DispatchError::Other("Expendability"));
		}
		a.free = new;
		if let Some(d) = Self::set(who, a) {
			Self::burn_dust(d)
		}
		Ok(NegativeImbalance::new(value))
	}
	fn make_free_balance_be(who: &T::AccountId, value: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> {
		let mut a = Self::account(who);
		let ed = T::ExistentialDeposit::get();
		let is_new = (a.free + a.reserved).is_zero();
		if value < ed && is_new {
			return SignedImbalance::Positive(PositiveImbalance::zero());
		}
		let im = if a.free <= value {
			SignedImbalance::Positive(PositiveImbalance::new(value - a.free))
		} else {
			SignedImbalance::Negative(NegativeImbalance::new(a.free - value))
		};
		a.free = value;
		if let Some(d) = Self::set(who, a) {
			Self::burn_dust(d)
		}
		im
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, value: T::Balance) -> bool {
		value.is_zero() || Self::account(who).free >= value
	}
	fn slash_reserved(_who: &T::AccountId, _value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		unimplemented!()
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).reserved
	}
	fn reserve(who: &T::AccountId, value: T::Balance) -> DispatchResult {
		if value.is_zero() {
			return Ok(());
		}
		let mut a = Self::account(who);
		a.free = a.free.checked_sub(&value).ok_or(TokenError::FundsUnavailable)?;
		a.reserved = a.reserved.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
		Account::<T>::insert(who, a);
		Ok(())
	}
	fn unreserve(who: &T::AccountId, value: T::Balance) -> T::Balance {
		let mut a = Self::account(who);
		let actual = a.reserved.min(value);
		a.reserved = a.reserved - actual;
		a.free = a.free.saturating_add(actual);
		Account::<T>::insert(who, a);
		value - actual
	}
	fn repatriate_reserved(_s: &T::AccountId, _b: &T::AccountId, _v: T::Balance, _st: BalanceStatus) -> Result<T::Balance, DispatchError> {
		unimplemented!()
	}
}
#[allow(unused)]
fn _x<T>(_: OptionQuery, _: Compact<T>) {}
