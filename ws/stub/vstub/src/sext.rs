//! Models of the signed extensions of frame_system and of tuples of extensions.
use crate::rt::traits::*;
use crate::rt::transaction_validity::*;
use crate::rt::DispatchResult;
use crate::system::{Account, Config};
use core::marker::PhantomData;
macro_rules! tup {
	($($n:ident $i:tt),*) => {
		impl<A, C: Dispatchable, $($n: SignedExtension<AccountId = A, Call = C>),*> SignedExtension for ($($n,)*) {
			const IDENTIFIER: &'static str = "";
			type AccountId = A;
			type Call = C;
			type AdditionalSigned = ();
			type Pre = ($($n::Pre,)*);
			fn additional_signed(&self) -> Result<(), TransactionValidityError> {
				Ok(())
			}
			fn validate(&self, who: &A, call: &C, info: &DispatchInfoOf<C>, len: usize) -> TransactionValidity {
				let v = ValidTransaction::default();
				$(let v = v.combine_with(self.$i.validate(who, call, info, len)?);)*
				Ok(v)
			}
			fn pre_dispatch(self, who: &A, call: &C, info: &DispatchInfoOf<C>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				Ok(($(self.$i.pre_dispatch(who, call, info, len)?,)*))
			}
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<C>, post: &PostDispatchInfoOf<C>, len: usize, result: &DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(p) => {
						$($n::post_dispatch(Some(p.$i), info, post, len, result)?;)*
					},
					None => {
						$($n::post_dispatch(None, info, post, len, result)?;)*
					},
				}
				Ok(())
			}
		}
	};
}
tup!(E0 0);
tup!(E0 0, E1 1);
tup!(E0 0, E1 1, E2 2);
tup!(E0 0, E1 1, E2 2, E3 3, E4 4, E5 5);
macro_rules! ext {
	($n:ident($($f:ty)?)) => {
		pub struct $n<T: Config>($(pub $f,)? pub PhantomData<T>);
		impl<T: Config> Clone for $n<T> {
			fn clone(&self) -> Self {
				unsafe { core::ptr::read(self) }
			}
		}
		impl<T: Config> core::fmt::Debug for $n<T> {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.write_str(stringify!($n))
			}
		}
	};
}
macro_rules! head {
	() => {
		const IDENTIFIER: &'static str = "";
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = ();
		type Pre = ();
		fn additional_signed(&self) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	};
}
ext!(CheckNonZeroSender());
ext!(CheckWeight());
ext!(CheckNonce(T::Nonce));
impl<T: Config> CheckNonZeroSender<T> {
	pub fn new() -> Self {
		Self(PhantomData)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckNonZeroSender<T> {
	head!();
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		if crate::cdc::Encode::encode(who).iter().all(|b| *b == 0) {
			return Err(InvalidTransaction::BadSigner.into());
		}
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, l: usize) -> Result<(), TransactionValidityError> {
		self.validate(who, c, i, l).map(|_| ())
	}
}
macro_rules! checks {
	($($n:ident)*) => {$(
		ext!($n());
		impl<T: Config> $n<T> {
			pub fn new() -> Self {
				Self(PhantomData)
			}
		}
		impl<T: Config + Send + Sync> SignedExtension for $n<T> {
			head!();
			fn pre_dispatch(self, _w: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
				Ok(())
			}
		}
	)*};
}
// about what is signed along with an ordinary transaction; nothing of theirs depends on the state here
checks!(CheckSpecVersion CheckTxVersion CheckEra);
impl<T: Config> CheckEra<T> {
	pub fn from(_: crate::rt::generic::Era) -> Self {
		Self(PhantomData)
	}
}
impl<T: Config> CheckWeight<T> {
	pub fn new() -> Self {
		Self(PhantomData)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckWeight<T> {
	head!();
	fn pre_dispatch(self, _w: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		Ok(())
	}
}
impl<T: Config> CheckNonce<T> {
	pub fn from(n: T::Nonce) -> Self {
		Self(n, PhantomData)
	}
}
impl<T: Config + Send + Sync> SignedExtension for CheckNonce<T>
where
	T::Nonce: From<u32>,
{
	head!();
	fn validate(&self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> TransactionValidity {
		if self.0 < Account::<T>::get(who.clone()).nonce {
			return Err(InvalidTransaction::Stale.into());
		}
		Ok(Default::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, _c: &T::RuntimeCall, _i: &DispatchInfoOf<T::RuntimeCall>, _l: usize) -> Result<(), TransactionValidityError> {
		let mut a = Account::<T>::get(who.clone());
		if self.0 < a.nonce {
			return Err(InvalidTransaction::Stale.into());
		}
		if self.0 > a.nonce {
			return Err(InvalidTransaction::Future.into());
		}
		a.nonce = a.nonce + T::Nonce::from(1u32);
		Account::<T>::insert(who.clone(), a);
		Ok(())
	}
}
