//! Model of pallet_proxy: the proxies of an account, in the order of (delegate, type, delay).
use crate::bounded::BoundedVec;
use crate::cdc::*;
use crate::rt::{traits::Zero, DispatchError, DispatchResult};
use crate::storage::{Slot, StorageMap, ValueQuery};
use crate::system;
use crate::traits::{ConstU32, InstanceFilter, StorageInstance};
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub struct ProxyDefinition<A, P, B> {
	pub delegate: A,
	pub proxy_type: P,
	pub delay: B,
}
pub trait Config: system::Config {
	type ProxyType: Clone + PartialEq + Encode + Decode + core::fmt::Debug + Default + Ord;
}
pub struct PProxies;
impl StorageInstance for PProxies {
	const STORAGE_PREFIX: &'static str = "Proxies";
	fn slot() -> &'static mut Slot {
		static mut S: Slot = Slot::NEW;
		unsafe { &mut *core::ptr::addr_of_mut!(S) }
	}
}
pub type Def<T> = ProxyDefinition<<T as system::Config>::AccountId, <T as Config>::ProxyType, u32>;
pub type Proxies<T> = StorageMap<PProxies, T, <T as system::Config>::AccountId, (Vec<Def<T>>, u128), ValueQuery>;
/// At most this many proxies per account.
pub static mut MAX_PROXIES: usize = 32;
pub struct Pallet<T>(PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn proxies(a: T::AccountId) -> (BoundedVec<Def<T>, ConstU32<1000>>, u128) {
		let (v, d) = Proxies::<T>::get(a);
		(BoundedVec::truncate_from(v), d)
	}
	pub fn find_proxy(real: &T::AccountId, delegate: &T::AccountId, force: Option<T::ProxyType>) -> Result<Def<T>, DispatchError> {
		Proxies::<T>::get(real)
			.0
			.into_iter()
			.find(|x| &x.delegate == delegate && force.as_ref().map_or(true, |y| &x.proxy_type == y))
			.ok_or(DispatchError::Other("NotProxy"))
	}
	pub fn add_proxy_delegate(delegator: &T::AccountId, delegate: T::AccountId, proxy_type: T::ProxyType, delay: u32) -> DispatchResult {
		if delegator == &delegate {
			return Err(DispatchError::Other("NoSelfProxy"));
		}
		let d = ProxyDefinition { delegate, proxy_type, delay };
		let mut v = Proxies::<T>::get(delegator);
		if v.0.contains(&d) {
			return Err(DispatchError::Other("Duplicate"));
		}
		if v.0.len() >= unsafe { MAX_PROXIES } {
			return Err(DispatchError::Other("TooMany"));
		}
		v.0.push(d);
		Proxies::<T>::insert(delegator, v);
		Ok(())
	}
	pub fn remove_proxy_delegate(delegator: &T::AccountId, delegate: T::AccountId, proxy_type: T::ProxyType, delay: u32) -> DispatchResult {
		let d = ProxyDefinition { delegate, proxy_type, delay };
		let mut v = Proxies::<T>::get(delegator);
		let i = v.0.iter().position(|x| x == &d).ok_or(DispatchError::Other("NotFound"))?;
		v.0.remove(i);
		if v.0.is_empty() {
			Proxies::<T>::remove(delegator);
		} else {
			Proxies::<T>::insert(delegator, v);
		}
		Ok(())
	}
}
