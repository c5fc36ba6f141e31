//! Model of frame_support (re-exported by the alias crate).
use crate::cdc::*;
pub use crate::bounded::{BoundedVec, WeakBoundedVec};
pub use crate::{storage, traits, weights};
pub use crate::rt as sp_runtime;
pub use crate::core_ as sp_core;
pub use crate::io as sp_io;
pub use crate::spstd as sp_std;
pub use crate::log;
pub use crate::weights::constants;
pub use crate::system::Parameter;
pub use vmacros::{
	pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound,
	RuntimeDebug, RuntimeDebugNoBound,
};
pub use crate::storage::{CountedStorageMap, StorageDoubleMap, StorageMap, StorageValue};
pub use crate::{assert_noop, assert_ok, assert_err, ensure, fail, parameter_types, runtime_print};
pub mod codec {
	pub use crate::cdc::*;
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct PalletId(pub [u8; 8]);
impl Encode for PalletId {
	fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
		out.write(&self.0)
	}
	fn sclone(&self) -> Self {
		*self
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl crate::rt::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}
pub struct Identity;
pub struct Blake2_128Concat;
pub struct Blake2_128;
pub struct Blake2_256;
pub struct Twox64Concat;
pub struct Twox128;
pub struct Twox256;

pub mod dispatch {
	use super::*;
	pub use crate::rt::traits::Dispatchable;
	pub use crate::rt::{DispatchError, DispatchResult};
	pub use crate::system::RawOrigin;
	pub use crate::traits::{CallMetadata, GetCallMetadata, UnfilteredDispatchable};
	pub use crate::weights::Weight;
	pub use crate::system::Parameter;
	pub use vmacros::{MaxEncodedLen, TypeInfo};
	pub use crate::cdc::{Decode, Encode, EncodeLike, HasCompact};
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub enum Pays {
		#[default]
		Yes,
		No,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub enum DispatchClass {
		#[default]
		Normal,
		Operational,
		Mandatory,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct DispatchInfo {
		pub weight: Weight,
		pub class: DispatchClass,
		pub pays_fee: Pays,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct PostDispatchInfo {
		pub actual_weight: Option<Weight>,
		pub pays_fee: Pays,
	}
	impl PostDispatchInfo {
		pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
			self.actual_weight.unwrap_or(info.weight)
		}
	}
	impl Encode for PostDispatchInfo {
		fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
		fn sclone(&self) -> Self {
			*self
		}
		fn seq(&self, o: &Self) -> bool {
			self == o
		}
	}
	impl Decode for PostDispatchInfo {
		fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
			Ok(Default::default())
		}
	}
	impl From<()> for PostDispatchInfo {
		fn from(_: ()) -> Self {
			Default::default()
		}
	}
	impl From<Option<Weight>> for PostDispatchInfo {
		fn from(w: Option<Weight>) -> Self {
			PostDispatchInfo { actual_weight: w, pays_fee: Pays::Yes }
		}
	}
	impl From<Pays> for PostDispatchInfo {
		fn from(p: Pays) -> Self {
			PostDispatchInfo { actual_weight: None, pays_fee: p }
		}
	}
	impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
		fn from(p: (Option<Weight>, Pays)) -> Self {
			PostDispatchInfo { actual_weight: p.0, pays_fee: p.1 }
		}
	}
	pub type DispatchErrorWithPostInfo = crate::rt::DispatchErrorWithPostInfo<PostDispatchInfo>;
	pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
	pub trait GetDispatchInfo {
		fn get_dispatch_info(&self) -> DispatchInfo;
	}
	pub trait WithPostDispatchInfo {
		fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
	}
	impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
		fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
			crate::rt::DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Pays::Yes }, error: self.into() }
		}
	}
	pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
		match r {
			Ok(p) => p.calc_actual_weight(info),
			Err(e) => e.post_info.calc_actual_weight(info),
		}
	}
}
pub mod unsigned {
	pub use crate::rt::traits::ValidateUnsigned;
	pub use crate::rt::transaction_validity::*;
}
pub mod inherent {}
pub mod pallet_prelude {
	pub use super::dispatch::*;
	pub use super::{
		ensure, fail, Blake2_128, Blake2_128Concat, Blake2_256, BoundedVec, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, Identity,
		PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound, Twox128, Twox256, Twox64Concat,
	};
	pub use crate::cdc::{Decode, Encode, EncodeLike, MaxEncodedLen, TypeInfo};
	pub use crate::rt::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::rt::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError,
		UnknownTransaction, ValidTransaction,
	};
	pub use crate::storage::{CountedStorageMap, GetDefault, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery};
	pub use crate::traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInstance, StorageVersion, TypedGet};
	pub use crate::weights::Weight;
	pub use crate::system::Parameter;
	pub use vmacros::{Decode, Encode, MaxEncodedLen, TypeInfo};
	pub use core::marker::PhantomData;
}
pub mod migration {}
pub mod transaction_validity {
	pub use crate::rt::transaction_validity::*;
}
