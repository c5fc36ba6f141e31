//! Model of frame_system.
use crate::cdc::*;
use crate::rt::{traits::*, DispatchError, DispatchResult};
use crate::storage::Slot;
use crate::support::dispatch::*;
use crate::traits::{Get, OriginTrait, StorageInstance, UnfilteredDispatchable};
use crate::weights::*;

#[derive(Clone, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(x: Option<A>) -> Self {
		match x {
			Some(a) => RawOrigin::Signed(a),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn signed(a: A) -> Self {
		RawOrigin::Signed(a)
	}
}
/// The runtime origin of the harness runtimes.
pub struct Origin<A, C> {
	pub raw: RawOrigin<A>,
	pub filter: Option<std::rc::Rc<dyn Fn(&C) -> bool>>,
}
impl<A: Clone, C> Clone for Origin<A, C> {
	fn clone(&self) -> Self {
		Origin { raw: self.raw.clone(), filter: self.filter.clone() }
	}
}
impl<A: core::fmt::Debug, C> core::fmt::Debug for Origin<A, C> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("origin")
	}
}
impl<A, C> From<RawOrigin<A>> for Origin<A, C> {
	fn from(raw: RawOrigin<A>) -> Self {
		Origin { raw, filter: None }
	}
}
impl<A, C> From<Option<A>> for Origin<A, C> {
	fn from(a: Option<A>) -> Self {
		Origin { raw: a.into(), filter: None }
	}
}
impl<A, C> From<Origin<A, C>> for Result<RawOrigin<A>, Origin<A, C>> {
	fn from(o: Origin<A, C>) -> Self {
		Ok(o.raw)
	}
}
impl<A: Clone, C: 'static> OriginTrait for Origin<A, C> {
	type Call = C;
	type PalletsOrigin = RawOrigin<A>;
	type AccountId = A;
	fn add_filter(&mut self, filter: impl Fn(&C) -> bool + 'static) {
		let f = self.filter.clone();
		self.filter = Some(std::rc::Rc::new(move |c| (match &f { Some(f) => f(c), None => true }) && filter(c)));
	}
	fn reset_filter(&mut self) {
		self.filter = None
	}
	fn set_caller_from(&mut self, o: impl Into<Self>) {
		self.raw = o.into().raw
	}
	fn filter_call(&self, c: &C) -> bool {
		match (&self.raw, &self.filter) {
			(RawOrigin::Root, _) => true,
			(_, Some(f)) => f(c),
			_ => true,
		}
	}
	fn caller(&self) -> &RawOrigin<A> {
		&self.raw
	}
	fn none() -> Self {
		RawOrigin::None.into()
	}
	fn root() -> Self {
		RawOrigin::Root.into()
	}
	fn signed(a: A) -> Self {
		RawOrigin::Signed(a).into()
	}
	fn as_signed(&self) -> Option<&A> {
		match &self.raw {
			RawOrigin::Signed(a) => Some(a),
			_ => None,
		}
	}
}
pub trait Config: 'static + Eq + Clone + Sized {
	type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
	type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo + From<Call<Self>>;
	type RuntimeEvent: Parameter + Member + core::fmt::Debug;
	type AccountId: Parameter + Member + MaybeSerializeDeserialize + core::fmt::Debug + MaybeDisplay + Ord;
	type BlockNumber: Parameter + Member + Default + Copy + AtLeast32BitUnsigned + core::fmt::Debug + From<u32>;
	type Nonce: Parameter + Member + Default + Copy + AtLeast32BitUnsigned;
	type Hash: Parameter + Member + Copy + Default + AsRef<[u8]> + Ord;
	type Hashing: Hash<Output = Self::Hash>;
	type Lookup: StaticLookup<Target = Self::AccountId>;
	type DbWeight: Get<RuntimeDbWeight>;
	type Block;
	type Version;
	type BlockHashCount: Get<Self::BlockNumber>;
}
pub use crate::sext::{CheckEra, CheckNonZeroSender, CheckNonce, CheckSpecVersion, CheckTxVersion, CheckWeight};
pub trait Parameter: Encode + Decode + Clone + Eq + core::fmt::Debug {}
impl<T: Encode + Decode + Clone + Eq + core::fmt::Debug> Parameter for T {}

macro_rules! prefix {
	($n:ident) => {
		pub struct $n;
		impl StorageInstance for $n {
			const STORAGE_PREFIX: &'static str = stringify!($n);
			fn slot() -> &'static mut Slot {
				static mut S: Slot = Slot::NEW;
				unsafe { &mut *core::ptr::addr_of_mut!(S) }
			}
		}
	};
}
prefix!(PNumber);
prefix!(PAccount);
prefix!(PParent);
use crate::storage::{StorageMap, StorageValue, ValueQuery};
pub type Number<T> = StorageValue<PNumber, <T as Config>::BlockNumber, ValueQuery>;
pub type Account<T> = StorageMap<PAccount, (), <T as Config>::AccountId, AccountInfo<<T as Config>::Nonce>, ValueQuery>;
#[derive(Clone, PartialEq, Eq, Debug, Default, vmacros::Encode, vmacros::Decode)]
pub struct AccountInfo<N> {
	pub nonce: N,
	pub consumers: u32,
	pub providers: u32,
	pub sufficients: u32,
}
#[derive(vmacros::CloneNoBound, vmacros::PartialEqNoBound, vmacros::RuntimeDebugNoBound, vmacros::Encode, vmacros::Decode)]
#[allow(non_camel_case_types)]
pub enum Call<T: Config> {
	remark { remark: Vec<u8> },
	set_code { code: Vec<u8> },
	#[doc(hidden)]
	__Ignore(core::marker::PhantomData<T>),
}
impl<T: Config> Eq for Call<T> {}
pub enum Event<T: Config> {
	__Ignore(core::marker::PhantomData<T>),
}
pub enum Error<T> {
	CallFiltered,
	__Ignore(core::marker::PhantomData<T>),
}
impl<T> From<Error<T>> for crate::rt::DispatchError {
	fn from(_: Error<T>) -> Self {
		crate::rt::DispatchError::Other("CallFiltered")
	}
}
pub struct Pallet<T>(core::marker::PhantomData<T>);
/// Deposited consensus digests, most recent last.
pub static mut DIGESTS: Vec<crate::rt::generic::DigestItem> = Vec::new();
impl<T: Config> Pallet<T> {
	pub fn block_number() -> T::BlockNumber {
		Number::<T>::get()
	}
	pub fn set_block_number(n: T::BlockNumber) {
		Number::<T>::put(n)
	}
	pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one())
	}
	pub fn account(who: impl EncodeLike<T::AccountId>) -> AccountInfo<T::Nonce> {
		Account::<T>::get(who)
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn deposit_event(_e: impl Into<T::RuntimeEvent>) {}
	pub fn deposit_log(d: crate::rt::generic::DigestItem) {
		unsafe { (*core::ptr::addr_of_mut!(DIGESTS)).push(d) }
	}
	pub fn extrinsic_index() -> Option<u32> {
		Some(crate::sx::u32())
	}
	pub fn parent_hash() -> T::Hash {
		T::Hash::default()
	}
	pub fn inc_providers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.providers += 1)
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::mutate(who, |a| a.providers = a.providers.saturating_sub(1));
		Ok(())
	}
	pub fn inc_consumers(_who: &T::AccountId) -> Result<(), DispatchError> {
		Ok(())
	}
	pub fn dec_consumers(_who: &T::AccountId) {}
	pub fn inc_sufficients(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.sufficients += 1)
	}
	pub fn dec_sufficients(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.sufficients = a.sufficients.saturating_sub(1))
	}
	pub fn can_dec_provider(_who: &T::AccountId) -> bool {
		true
	}
	pub fn block_hash(n: T::BlockNumber) -> T::Hash {
		let b = [if n == T::BlockNumber::from(0u32) { 0x47u8 } else { 0x48 }; 32];
		T::Hash::decode(&mut &b[..]).unwrap_or_default()
	}
}
pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
macro_rules! ens {
	($n:ident, $s:ty, $f:expr, $($g:ident),*) => {
		pub struct $n<$($g),*>(core::marker::PhantomData<($($g,)*)>);
		impl<O: Into<Result<RawOrigin<AccountId>, O>> + From<RawOrigin<AccountId>>, AccountId> crate::traits::EnsureOrigin<O> for $n<AccountId> {
			type Success = $s;
			fn try_origin(o: O) -> Result<Self::Success, O> {
				let f: fn(RawOrigin<AccountId>) -> Result<$s, O> = $f;
				o.into().and_then(f)
			}
		}
	};
}
ens!(EnsureRoot, (), |o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }, AccountId);
ens!(EnsureSigned, AccountId, |o| match o { RawOrigin::Signed(a) => Ok(a), r => Err(O::from(r)) }, AccountId);
pub struct EnsureNever<T>(core::marker::PhantomData<T>);
impl<O, T> crate::traits::EnsureOrigin<O> for EnsureNever<T> {
	type Success = T;
	fn try_origin(o: O) -> Result<T, O> {
		Err(o)
	}
}
pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <T as super::Config>::BlockNumber;
	pub type HeaderFor<T> = core::marker::PhantomData<T>;
}
pub mod offchain {
	use super::*;
	pub trait SendTransactionTypes<LocalCall> {
		type Extrinsic;
		type OverarchingCall: From<LocalCall>;
	}
	pub trait SigningTypes {}
	pub trait CreateSignedTransaction<LocalCall>: SendTransactionTypes<LocalCall> {}
	/// The calls (of the runtime's call type) the node submitted.
	pub static mut SUBMITTED: Vec<*mut u8> = Vec::new();
	pub struct SubmitTransaction<T, C>(core::marker::PhantomData<(T, C)>);
	impl<T: SendTransactionTypes<L>, L> SubmitTransaction<T, L> {
		pub fn submit_unsigned_transaction(c: T::OverarchingCall) -> Result<(), ()> {
			unsafe { (*core::ptr::addr_of_mut!(SUBMITTED)).push(Box::into_raw(Box::new(c)) as *mut u8) };
			Ok(())
		}
	}
	#[allow(unused)]
	fn _t(_: DispatchResult) {}
}
macro_rules! ext {
	($n:ident) => {
		#[derive(Clone, PartialEq, Eq)]
		pub struct $n<T: Config>(core::marker::PhantomData<T>);
		impl<T: Config> core::fmt::Debug for $n<T> {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl<T: Config> $n<T> {
			pub fn new() -> Self {
				$n(core::marker::PhantomData)
			}
		}
	};
}
ext!(CheckGenesis);
