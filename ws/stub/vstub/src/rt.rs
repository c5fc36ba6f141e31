//! Model of sp_runtime.
use crate::cdc::*;
use crate::sx;
pub use crate::bounded::{BoundedVec, WeakBoundedVec};
pub use vmacros::RuntimeDebug;
pub use crate::cdc as codec;
impl DispatchError {
	/// Without the (here absent) text of a module error.
	pub fn stripped(self) -> Self {
		self
	}
}

pub type KeyTypeIdBytes = [u8; 4];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct KeyTypeId(pub [u8; 4]);
pub type ConsensusEngineId = [u8; 4];
pub type TryRuntimeError = DispatchError;

#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	pub message: Option<Never>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Never;
impl Encode for Never {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
	fn sclone(&self) -> Self {
		Never
	}
	fn seq(&self, _: &Self) -> bool {
		true
	}
}
impl Decode for Never {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(Never)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, vmacros::Encode, vmacros::Decode)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DispatchError {
	Other(&'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl Encode for DispatchError {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		out.push_byte(0)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for DispatchError {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(DispatchError::Other(""))
	}
}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		DispatchError::Other(s)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(s: ArithmeticError) -> Self {
		DispatchError::Arithmetic(s)
	}
}
impl From<TokenError> for DispatchError {
	fn from(s: TokenError) -> Self {
		DispatchError::Token(s)
	}
}
impl From<DispatchError> for &'static str {
	fn from(_: DispatchError) -> &'static str {
		"dispatch error"
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<I: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<I> {
	fn from(e: E) -> Self {
		DispatchErrorWithPostInfo { post_info: I::default(), error: e.into() }
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type ApplyExtrinsicResult = Result<DispatchResult, transaction_validity::TransactionValidityError>;
pub trait RuntimeAppPublic: Sized {
	const ID: KeyTypeId;
	type Signature: Clone + Eq + core::fmt::Debug + crate::cdc::Encode + crate::cdc::Decode;
	fn all() -> Vec<Self>;
	fn generate_pair(_: Option<Vec<u8>>) -> Self;
	fn sign<M: AsRef<[u8]>>(&self, msg: &M) -> Option<Self::Signature>;
	fn verify<M: AsRef<[u8]>>(&self, msg: &M, signature: &Self::Signature) -> bool;
	fn to_raw_vec(&self) -> Vec<u8>;
}
pub trait BoundToRuntimeAppPublic {
	type Public;
}
pub trait BuildStorage {}
pub struct OpaqueExtrinsic(pub Vec<u8>);
pub trait FixedPointOperand: Copy + core::ops::Add<Output = Self> {}
impl<T: Copy + core::ops::Add<Output = T>> FixedPointOperand for T {}

pub mod traits {
	use super::*;
	pub use crate::traits::{ConstBool, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TryMorph};
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct BadOrigin;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct LookupError;
	pub trait Extrinsic {}
	pub trait Zero: Sized {
		fn zero() -> Self;
		fn is_zero(&self) -> bool;
	}
	pub trait One: Sized {
		fn one() -> Self;
		fn is_one(&self) -> bool
		where
			Self: PartialEq,
		{
			*self == Self::one()
		}
	}
	pub trait Bounded {
		fn min_value() -> Self;
		fn max_value() -> Self;
	}
	pub trait Saturating: Sized + Copy + Bounded2 {
		fn saturating_add(self, o: Self) -> Self;
		fn saturating_sub(self, o: Self) -> Self;
		fn saturating_mul(self, o: Self) -> Self;
		fn saturating_pow(self, e: usize) -> Self;
		fn saturating_less_one(self) -> Self;
		fn saturating_plus_one(self) -> Self;
		fn saturating_inc(&mut self);
		fn saturating_dec(&mut self);
		fn saturating_accrue(&mut self, o: Self);
		fn saturating_reduce(&mut self, o: Self);
	}
	pub trait Bounded2 {}
	impl<T> Bounded2 for T {}
	pub trait CheckedAdd: Sized {
		fn checked_add(&self, o: &Self) -> Option<Self>;
	}
	pub trait CheckedSub: Sized {
		fn checked_sub(&self, o: &Self) -> Option<Self>;
	}
	pub trait CheckedMul: Sized {
		fn checked_mul(&self, o: &Self) -> Option<Self>;
	}
	pub trait CheckedDiv: Sized {
		fn checked_div(&self, o: &Self) -> Option<Self>;
	}
	pub trait IntegerSquareRoot: Sized {
		fn integer_sqrt(&self) -> Self;
	}
	pub trait UniqueSaturatedInto<T: Sized>: Sized {
		fn unique_saturated_into(self) -> T;
	}
	pub trait UniqueSaturatedFrom<T: Sized>: Sized {
		fn unique_saturated_from(t: T) -> Self;
	}
	impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
		fn unique_saturated_from(t: T) -> Self {
			S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
		}
	}
	impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
		fn unique_saturated_into(self) -> T {
			self.try_into().unwrap_or_else(|_| Bounded::max_value())
		}
	}
	pub trait SaturatedConversion {
		fn saturated_from<T>(t: T) -> Self
		where
			Self: UniqueSaturatedFrom<T>,
		{
			<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
		}
		fn saturated_into<T>(self) -> T
		where
			Self: UniqueSaturatedInto<T>,
			Self: Sized,
		{
			<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
		}
	}
	impl<T: Sized> SaturatedConversion for T {}
	macro_rules! ints {
		($($t:ty),*) => {$(
			impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
			impl One for $t { fn one() -> Self { 1 } }
			impl Bounded for $t { fn min_value() -> Self { <$t>::MIN } fn max_value() -> Self { <$t>::MAX } }
			impl Saturating for $t {
				fn saturating_add(self, o: Self) -> Self { <$t>::saturating_add(self, o) }
				fn saturating_sub(self, o: Self) -> Self { <$t>::saturating_sub(self, o) }
				fn saturating_mul(self, o: Self) -> Self { <$t>::saturating_mul(self, o) }
				fn saturating_pow(self, e: usize) -> Self { <$t>::saturating_pow(self, e as core::primitive::u32) }
				fn saturating_less_one(self) -> Self { <$t>::saturating_sub(self, 1) }
				fn saturating_plus_one(self) -> Self { <$t>::saturating_add(self, 1) }
				fn saturating_inc(&mut self) { *self = <$t>::saturating_add(*self, 1) }
				fn saturating_dec(&mut self) { *self = <$t>::saturating_sub(*self, 1) }
				fn saturating_accrue(&mut self, o: Self) { *self = <$t>::saturating_add(*self, o) }
				fn saturating_reduce(&mut self, o: Self) { *self = <$t>::saturating_sub(*self, o) }
			}
			impl CheckedAdd for $t { fn checked_add(&self, o: &Self) -> Option<Self> { <$t>::checked_add(*self, *o) } }
			impl CheckedSub for $t { fn checked_sub(&self, o: &Self) -> Option<Self> { <$t>::checked_sub(*self, *o) } }
			impl CheckedMul for $t { fn checked_mul(&self, o: &Self) -> Option<Self> { <$t>::checked_mul(*self, *o) } }
			impl CheckedDiv for $t { fn checked_div(&self, o: &Self) -> Option<Self> { <$t>::checked_div(*self, *o) } }
			impl IntegerSquareRoot for $t { fn integer_sqrt(&self) -> Self { unimplemented!() } }
		)*};
	}
	ints!(u8, u16, u32, u64, u128, usize);
	pub trait BaseArithmetic:
		Copy + Clone + PartialOrd + Ord + PartialEq + Eq + Zero + One + Bounded + Saturating + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv
		+ core::ops::Add<Self, Output = Self> + core::ops::Sub<Self, Output = Self> + core::ops::Mul<Self, Output = Self> + core::ops::Div<Self, Output = Self> + core::ops::Rem<Self, Output = Self>
		+ core::ops::AddAssign + core::ops::SubAssign + core::ops::MulAssign + core::ops::DivAssign
		+ From<u8> + TryFrom<u32> + TryFrom<u64> + TryFrom<u128> + TryFrom<usize> + TryInto<u8> + TryInto<u16> + TryInto<u32> + TryInto<u64> + TryInto<u128> + TryInto<usize>
		+ UniqueSaturatedInto<u8> + UniqueSaturatedInto<u16> + UniqueSaturatedInto<u32> + UniqueSaturatedInto<u64> + UniqueSaturatedInto<u128> + UniqueSaturatedInto<usize>
		+ UniqueSaturatedFrom<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedFrom<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedFrom<u128> + UniqueSaturatedFrom<usize>
	{
	}
	macro_rules! ba { ($($t:ty),*) => {$( impl BaseArithmetic for $t {} )*}; }
	ba!(u8, u16, u32, u64, u128);
	pub trait AtLeast8BitUnsigned: BaseArithmetic {}
	impl AtLeast8BitUnsigned for u8 {}
	impl AtLeast8BitUnsigned for u16 {}
	impl AtLeast8BitUnsigned for u32 {}
	impl AtLeast8BitUnsigned for u64 {}
	impl AtLeast8BitUnsigned for u128 {}
	pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
	impl AtLeast32Bit for u32 {}
	impl AtLeast32Bit for u64 {}
	impl AtLeast32Bit for u128 {}
	pub trait AtLeast32BitUnsigned: AtLeast32Bit {}
	impl AtLeast32BitUnsigned for u32 {}
	impl AtLeast32BitUnsigned for u64 {}
	impl AtLeast32BitUnsigned for u128 {}
	pub trait Member: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + core::fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	pub trait MaybeSerializeDeserialize {}
	impl<T> MaybeSerializeDeserialize for T {}
	pub trait MaybeSerialize {}
	impl<T> MaybeSerialize for T {}
	pub trait MaybeDisplay {}
	impl<T> MaybeDisplay for T {}
	pub trait MaybeFromStr {}
	impl<T> MaybeFromStr for T {}
	pub trait MaybeHash {}
	impl<T> MaybeHash for T {}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			B::default()
		}
	}
	pub struct ConvertInto;
	impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub trait StaticLookup {
		type Source: Clone + PartialEq + core::fmt::Debug + Encode + Decode;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	pub struct IdentityLookup<T>(core::marker::PhantomData<T>);
	impl<T: Clone + PartialEq + core::fmt::Debug + Encode + Decode> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(s: T) -> Result<T, LookupError> {
			Ok(s)
		}
		fn unlookup(t: T) -> T {
			t
		}
	}
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId {
			self.into_sub_account_truncating(&())
		}
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
		fn try_into_account(&self) -> Option<AccountId> {
			Some(self.into_account_truncating())
		}
	}
	pub struct TrailingZeroInput<'a>(pub &'a [u8]);
	impl<'a> Input for TrailingZeroInput<'a> {
		fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
			let n = into.len().min(self.0.len());
			into[..n].copy_from_slice(&self.0[..n]);
			for x in &mut into[n..] {
				*x = 0
			}
			self.0 = &self.0[n..];
			Ok(())
		}
		fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
			Ok(None)
		}
	}
	pub trait TypeId {
		const TYPE_ID: [u8; 4];
	}
	impl<T: Decode, Id: Encode + TypeId> AccountIdConversion<T> for Id {
		fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
			let mut v = Vec::new();
			Id::TYPE_ID.encode_to(&mut v);
			self.encode_to(&mut v);
			sub.encode_to(&mut v);
			T::decode(&mut TrailingZeroInput(&v)).expect("All byte sequences produce valid ids")
		}
	}
	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	pub trait Hash: 'static + Clone + Eq + PartialEq + core::fmt::Debug {
		type Output: Clone + PartialEq + Eq + core::fmt::Debug + Encode + Decode + Copy + Default + AsRef<[u8]> + Ord;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			Self::hash(&s.encode())
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = crate::fixed::H256;
		fn hash(s: &[u8]) -> Self::Output {
			crate::fixed::H256(crate::io::hashing::blake2_256(s))
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct Keccak256;
	impl Hash for Keccak256 {
		type Output = crate::fixed::H256;
		fn hash(s: &[u8]) -> Self::Output {
			crate::fixed::H256(crate::io::hashing::keccak_256(s))
		}
	}
	pub trait Dispatchable {
		type RuntimeOrigin;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Default;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	pub trait SignedExtension: Clone + core::fmt::Debug + Sync + Send + 'static {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call;
		type AdditionalSigned;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, transaction_validity::TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> transaction_validity::TransactionValidity
		where
			Self::Call: Dispatchable,
		{
			Ok(Default::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, transaction_validity::TransactionValidityError>
		where
			Self::Call: Dispatchable;
		fn post_dispatch(
			_pre: Option<Self::Pre>,
			_info: &DispatchInfoOf<Self::Call>,
			_post_info: &PostDispatchInfoOf<Self::Call>,
			_len: usize,
			_result: &DispatchResult,
		) -> Result<(), transaction_validity::TransactionValidityError>
		where
			Self::Call: Dispatchable,
		{
			Ok(())
		}
	}
	pub trait BlockNumberProvider {
		type BlockNumber;
		fn current_block_number() -> Self::BlockNumber;
	}
	pub trait Block {}
	pub trait Header {}
	pub trait OpaqueKeys {}
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), transaction_validity::TransactionValidityError> {
			Self::validate_unsigned(transaction_validity::TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into)
		}
		fn validate_unsigned(source: transaction_validity::TransactionSource, call: &Self::Call) -> transaction_validity::TransactionValidity;
	}
	pub trait EnsureOp<T> {}
}
pub use traits::SaturatedConversion;
pub use traits::Saturating;

pub mod transaction_validity {
	use crate::weights::Weight;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(x: InvalidTransaction) -> Self {
			Self::Invalid(x)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(x: UnknownTransaction) -> Self {
			Self::Unknown(x)
		}
	}
	impl From<TransactionValidityError> for &'static str {
		fn from(_: TransactionValidityError) -> &'static str {
			"invalid"
		}
	}
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(x: InvalidTransaction) -> Self {
			Err(x.into())
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(x: UnknownTransaction) -> Self {
			Err(x.into())
		}
	}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct ValidTransaction {
		pub priority: TransactionPriority,
		pub requires: Vec<TransactionTag>,
		pub provides: Vec<TransactionTag>,
		pub longevity: TransactionLongevity,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			ValidTransaction { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			self.requires.append(&mut o.requires);
			self.provides.append(&mut o.provides);
			ValidTransaction {
				priority: self.priority.saturating_add(o.priority),
				requires: self.requires,
				provides: self.provides,
				longevity: self.longevity.min(o.longevity),
				propagate: self.propagate && o.propagate,
			}
		}
	}
	#[derive(Clone, Debug, Default)]
	pub struct ValidTransactionBuilder {
		pub prefix: Option<&'static str>,
		pub validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: TransactionPriority) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, p: TransactionLongevity) -> Self {
			self.validity.longevity = p;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		pub fn and_provides(mut self, tag: impl crate::cdc::Encode) -> Self {
			self.validity.provides.push(match self.prefix.as_ref() {
				Some(p) => (p, tag).encode(),
				None => tag.encode(),
			});
			self
		}
		pub fn and_requires(mut self, tag: impl crate::cdc::Encode) -> Self {
			self.validity.requires.push(tag.encode());
			self
		}
		pub fn combine_with(mut self, o: ValidTransaction) -> Self {
			self.validity = core::mem::take(&mut self.validity).combine_with(o);
			self
		}
		pub fn build(self) -> TransactionValidity {
			Ok(self.validity)
		}
	}
	impl From<ValidTransactionBuilder> for TransactionValidity {
		fn from(b: ValidTransactionBuilder) -> Self {
			b.build()
		}
	}
	use crate::cdc::Encode;
	#[allow(unused)]
	fn _w(_: Weight) {}
}
pub mod generic {
	pub struct SignedPayload;
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum DigestItem {
		PreRuntime([u8; 4], Vec<u8>),
		Consensus([u8; 4], Vec<u8>),
		Seal([u8; 4], Vec<u8>),
		Other(Vec<u8>),
		RuntimeEnvironmentUpdated,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn mortal(a: u64, b: u64) -> Self {
			Era::Mortal(a, b)
		}
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct Header<N, H>(core::marker::PhantomData<(N, H)>);
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct Block<H, E>(core::marker::PhantomData<(H, E)>);
	pub type BlockId<B> = core::marker::PhantomData<B>;
}
pub mod offchain {
	pub enum StorageKind {
		PERSISTENT,
		LOCAL,
	}
	pub struct Duration(u64);
	impl Duration {
		pub fn from_millis(x: u64) -> Self {
			Duration(x)
		}
		pub fn millis(&self) -> u64 {
			self.0
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
	pub struct Timestamp(u64);
	impl Timestamp {
		pub fn add(&self, d: Duration) -> Timestamp {
			Timestamp(self.0.saturating_add(d.0))
		}
		pub fn from_unix_millis(x: u64) -> Self {
			Timestamp(x)
		}
		pub fn unix_millis(&self) -> u64 {
			self.0
		}
	}
	pub mod http {
		pub enum Error {
			DeadlineReached,
			IoError,
			Unknown,
		}
		pub enum Method {
			Get,
			Post,
		}
		pub struct Request;
		impl Request {
			pub fn post<B>(_u: &str, _b: B) -> Self {
				Request
			}
			pub fn add_header(self, _a: &str, _b: &str) -> Self {
				self
			}
			pub fn deadline(self, _t: super::Timestamp) -> Self {
				self
			}
			pub fn send(self) -> Result<PendingRequest, Error> {
				Err(Error::IoError)
			}
		}
		pub struct PendingRequest;
		impl PendingRequest {
			pub fn try_wait(self, _t: impl Into<Option<super::Timestamp>>) -> Result<Result<Response, Error>, PendingRequest> {
				Err(self)
			}
		}
		pub struct Response {
			pub code: u16,
		}
		impl Response {
			pub fn body(&self) -> std::vec::IntoIter<u8> {
				Vec::new().into_iter()
			}
		}
	}
	pub mod storage_lock {}
}

// ---- per-things ----
pub trait PerThing: Sized + Copy {
	type Inner;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn zero() -> Self;
	fn one() -> Self;
	fn is_zero(&self) -> bool;
	fn is_one(&self) -> bool;
}
pub trait PtNum: Copy {
	fn to256(self) -> u128;
	fn from256(x: u128) -> Self;
}
macro_rules! ptnum { ($($t:ty),*) => {$( impl PtNum for $t { fn to256(self) -> u128 { self as u128 } fn from256(x: u128) -> Self { x as $t } } )*}; }
ptnum!(u8, u16, u32, u64, u128, usize);
macro_rules! perthing {
	($n:ident, $inner:ty, $upper:ty, $max:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
		pub struct $n($inner);
		impl $n {
			pub const fn from_parts(x: $inner) -> Self {
				$n(if x < $max { x } else { $max })
			}
			pub const fn from_percent(x: $inner) -> Self {
				$n(((if x < 100 { x } else { 100 }) as u128 * $max as u128 / 100) as $inner)
			}
			pub const fn from_perthousand(x: $inner) -> Self {
				$n(((x as u128) * $max as u128 / 1000) as $inner)
			}
			pub const fn zero() -> Self {
				$n(0)
			}
			pub const fn one() -> Self {
				$n($max)
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub const fn deconstruct(self) -> $inner {
				self.0
			}
			pub fn left_from_one(self) -> Self {
				$n($max - self.0)
			}
			pub fn checked_add(&self, o: &Self) -> Option<Self> {
				match self.0.checked_add(o.0) {
					Some(x) if x <= $max => Some($n(x)),
					_ => None,
				}
			}
			pub fn checked_sub(&self, o: &Self) -> Option<Self> {
				self.0.checked_sub(o.0).map($n)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				$n::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				$n(self.0.saturating_sub(o.0))
			}
			// x / MAX * part + round(x % MAX * part / MAX): sp_arithmetic's overflow_prune_mul
			fn prune_mul(self, x: u128, round: u8) -> u128 {
				let m = $max as u128;
				let p = self.0 as u128;
				let up = (x % m) * p;
				let mut r = up / m;
				let rem = up % m;
				match round {
					0 => {},
					1 => {
						if rem > m / 2 {
							r += 1
						}
					},
					_ => {
						if rem > 0 {
							r += 1
						}
					},
				}
				(x / m) * p + r
			}
			pub fn mul_floor<N: PtNum>(self, x: N) -> N {
				N::from256(self.prune_mul(x.to256(), 0))
			}
			pub fn mul_ceil<N: PtNum>(self, x: N) -> N {
				N::from256(self.prune_mul(x.to256(), 2))
			}
			pub fn from_rational<N: PtNum>(a: N, b: N) -> Self {
				let (a, b) = (a.to256(), b.to256());
				// q == 0 or p > q saturate to one
				if b == 0 || a > b {
					return $n($max);
				}
				// sp_arithmetic rounds down for from_rational; the product fits because a <= b
				let r = if a <= u128::MAX / ($max as u128) { a * ($max as u128) / b } else { a / (b / ($max as u128)) };
				$n((if r > $max as u128 { $max as u128 } else { r }) as $inner)
			}
		}
		impl PerThing for $n {
			type Inner = $inner;
			const ACCURACY: $inner = $max;
			fn deconstruct(self) -> $inner {
				self.0
			}
			fn zero() -> Self {
				$n(0)
			}
			fn one() -> Self {
				$n($max)
			}
			fn is_zero(&self) -> bool {
				self.0 == 0
			}
			fn is_one(&self) -> bool {
				self.0 == $max
			}
		}
		impl traits::Zero for $n {
			fn zero() -> Self {
				$n(0)
			}
			fn is_zero(&self) -> bool {
				self.0 == 0
			}
		}
		impl traits::Saturating for $n {
			fn saturating_add(self, o: Self) -> Self {
				$n::saturating_add(self, o)
			}
			fn saturating_sub(self, o: Self) -> Self {
				$n::saturating_sub(self, o)
			}
			fn saturating_mul(self, o: Self) -> Self {
				self * o
			}
			fn saturating_pow(self, _: usize) -> Self {
				unimplemented!()
			}
			fn saturating_less_one(self) -> Self {
				unimplemented!()
			}
			fn saturating_plus_one(self) -> Self {
				unimplemented!()
			}
			fn saturating_inc(&mut self) {
				unimplemented!()
			}
			fn saturating_dec(&mut self) {
				unimplemented!()
			}
			fn saturating_accrue(&mut self, o: Self) {
				*self = $n::saturating_add(*self, o)
			}
			fn saturating_reduce(&mut self, o: Self) {
				*self = $n::saturating_sub(*self, o)
			}
		}
		impl traits::CheckedAdd for $n {
			fn checked_add(&self, o: &Self) -> Option<Self> {
				$n::checked_add(self, o)
			}
		}
		impl<N: PtNum> core::ops::Mul<N> for $n {
			type Output = N;
			fn mul(self, x: N) -> N {
				N::from256(self.prune_mul(x.to256(), 1))
			}
		}
		impl core::ops::Mul<$n> for $n {
			type Output = $n;
			fn mul(self, o: $n) -> $n {
				$n((self.0 as u128 * o.0 as u128 / $max as u128) as $inner)
			}
		}
		impl core::ops::Add<$n> for $n {
			type Output = $n;
			fn add(self, o: $n) -> $n {
				$n(self.0 + o.0)
			}
		}
		impl core::ops::Sub<$n> for $n {
			type Output = $n;
			fn sub(self, o: $n) -> $n {
				$n(self.0 - o.0)
			}
		}
		impl Encode for $n {
			fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
				self.0.encode_to(out)
			}
			fn sclone(&self) -> Self {
				*self
			}
			fn seq(&self, o: &Self) -> bool {
				self == o
			}
		}
		impl Decode for $n {
			fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
				let x = <$inner>::decode(inp)?;
				Ok($n(x))
			}
		}
		impl serde::Serialize for $n {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_u64(self.0 as u64)
			}
		}
		impl<'de> serde::Deserialize<'de> for $n {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				<$inner as serde::Deserialize>::deserialize(d).map($n)
			}
		}
	};
}
perthing!(Percent, u8, u16, 100u8);
perthing!(Permill, u32, u64, 1_000_000u32);
perthing!(Perbill, u32, u64, 1_000_000_000u32);
perthing!(Perquintill, u64, u128, 1_000_000_000_000_000_000u64);

pub trait FixedPointNumber: Sized {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct FixedU128(pub u128);
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_inner(x: u128) -> Self {
		FixedU128(x)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub const fn from_u32(x: u32) -> Self {
		FixedU128(x as u128 * Self::DIV)
	}
	pub fn saturating_from_integer<N: PtNum>(x: N) -> Self {
		FixedU128(x.to256().saturating_mul(Self::DIV))
	}
	pub fn is_zero(&self) -> bool {
		self.0 == 0
	}
	pub fn zero() -> Self {
		FixedU128(0)
	}
	pub fn one() -> Self {
		FixedU128(Self::DIV)
	}
	fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
		use crate::fixed::U256;
		let p = U256::from(a).checked_mul(U256::from(b))?;
		let q = p.checked_div(U256::from(c))?;
		u128::try_from(q).ok()
	}
	pub fn checked_from_rational<N: PtNum, D: PtNum>(n: N, d: D) -> Option<Self> {
		if d.to256() == 0 {
			return None;
		}
		Self::muldiv(n.to256(), Self::DIV, d.to256()).map(FixedU128)
	}
	pub fn saturating_from_rational<N: PtNum, D: PtNum>(n: N, d: D) -> Self {
		if d.to256() == 0 {
			panic!("attempt to divide by zero")
		}
		Self::checked_from_rational(n, d).unwrap_or(FixedU128(u128::MAX))
	}
	pub fn from_rational(n: u128, d: u128) -> Self {
		Self::saturating_from_rational(n, d)
	}
	pub fn checked_mul_int<N: PtNum>(self, n: N) -> Option<N> {
		Self::muldiv(self.0, n.to256(), Self::DIV).map(N::from256)
	}
	pub fn saturating_mul_int<N: PtNum + traits::Bounded>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or(N::max_value())
	}
	pub fn checked_mul(&self, o: &Self) -> Option<Self> {
		Self::muldiv(self.0, o.0, Self::DIV).map(FixedU128)
	}
	pub fn checked_div(&self, o: &Self) -> Option<Self> {
		if o.0 == 0 {
			return None;
		}
		Self::muldiv(self.0, Self::DIV, o.0).map(FixedU128)
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).unwrap_or(FixedU128(u128::MAX))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		FixedU128(self.0.saturating_sub(o.0))
	}
	pub fn saturating_add(self, o: Self) -> Self {
		FixedU128(self.0.saturating_add(o.0))
	}
}
impl core::ops::Mul for FixedU128 {
	type Output = FixedU128;
	fn mul(self, o: Self) -> Self {
		self.checked_mul(&o).expect("attempt to multiply with overflow")
	}
}
impl Encode for FixedU128 {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		self.0.encode_to(out)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl Decode for FixedU128 {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		u128::decode(inp).map(FixedU128)
	}
}
#[allow(unused)]
fn _u() {
	sx::cut()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
pub mod helpers_128bit {
	use super::Rounding;
	use crate::fixed::U256;
	/// `a * b / c` without intermediate overflow; `None` if the result does not fit or c is zero.
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
		if c == 0 {
			return None;
		}
		let (n, d) = (U256::from(a) * U256::from(b), U256::from(c));
		let q = n / d;
		let rem = n % d;
		let up = match r {
			Rounding::Up => !rem.is_zero(),
			Rounding::Down => false,
			Rounding::NearestPrefUp => rem >= d - rem,
			Rounding::NearestPrefDown => rem > d - rem,
		};
		let q: u128 = q.try_into().ok()?;
		if up {
			q.checked_add(1)
		} else {
			Some(q)
		}
	}
}
