//! Model of pallet_transaction_payment: the interface that charges fees.
use crate::rt::traits::{DispatchInfoOf, PostDispatchInfoOf};
use crate::rt::transaction_validity::TransactionValidityError;
use crate::system;
pub trait Config: system::Config {
	type OnChargeTransaction: OnChargeTransaction<Self>;
}
pub trait OnChargeTransaction<T: system::Config>
where
	T::RuntimeCall: crate::rt::traits::Dispatchable,
{
	type Balance: Copy;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
/// The extension that takes the fee: of the length and the tip.
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
pub struct ChargeTransactionPayment<T: Config>(pub BalanceOf<T>);
impl<T: Config> Clone for ChargeTransactionPayment<T> {
	fn clone(&self) -> Self {
		Self(self.0)
	}
}
impl<T: Config> core::fmt::Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("ChargeTransactionPayment")
	}
}
impl<T: Config> ChargeTransactionPayment<T> {
	pub fn from(t: BalanceOf<T>) -> Self {
		Self(t)
	}
	/// A priority that grows with the tip.
	pub fn get_priority(_i: &DispatchInfo, _l: usize, tip: BalanceOf<T>, _f: BalanceOf<T>) -> u64 {
		let mut b = [0u8; 8];
		unsafe { core::ptr::copy_nonoverlapping(&tip as *const _ as *const u8, b.as_mut_ptr(), 8) };
		u64::from_le_bytes(b)
	}
}
use crate::rt::transaction_validity::TransactionValidity;
use crate::rt::FixedPointOperand;
use crate::support::dispatch::{DispatchInfo, PostDispatchInfo};
impl<T: Config + Send + Sync> crate::rt::traits::SignedExtension for ChargeTransactionPayment<T>
where
	T::RuntimeCall: crate::rt::traits::Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	BalanceOf<T>: Send + Sync + FixedPointOperand + From<u64>,
{
	const IDENTIFIER: &'static str = "";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, T::AccountId, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> TransactionValidity {
		T::OnChargeTransaction::withdraw_fee(who, call, info, BalanceOf::<T>::from(len as u64) + self.0, self.0)?;
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfo, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let l = T::OnChargeTransaction::withdraw_fee(who, call, info, BalanceOf::<T>::from(len as u64) + self.0, self.0)?;
		Ok((self.0, who.clone(), l))
	}
	fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfo, post: &PostDispatchInfo, len: usize, _r: &crate::rt::DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, l)) = pre {
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, BalanceOf::<T>::from(len as u64) + tip, tip, l)?;
		}
		Ok(())
	}
}
