//! Model of the `evm`, `fp_evm` and `pallet_evm` interfaces the precompiles and the fee proxy are written against.
use crate::cdc::*;
use crate::core_::{H160, H256, U256};
use crate::rt::traits::*;
use crate::storage::{Slot, StorageMap, ValueQuery};
use crate::system;
use crate::traits::{Get, StorageInstance};
use crate::weights::Weight;
use std::borrow::Cow;
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ExitSucceed {
	Stopped,
	Returned,
	Suicided,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ExitRevert {
	Reverted,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ExitError {
	StackUnderflow,
	InvalidJump,
	OutOfOffset,
	CallTooDeep,
	CreateCollision,
	CreateContractLimit,
	OutOfGas,
	OutOfFund,
	PCUnderflow,
	CreateEmpty,
	MaxNonce,
	Other(Cow<'static, str>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ExitFatal {
	NotSupported,
	UnhandledInterrupt,
	Other(Cow<'static, str>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ExitReason {
	Succeed(ExitSucceed),
	Error(ExitError),
	Revert(ExitRevert),
	Fatal(ExitFatal),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PrecompileOutput {
	pub exit_status: ExitSucceed,
	pub output: Vec<u8>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PrecompileFailure {
	Error { exit_status: ExitError },
	Revert { exit_status: ExitRevert, output: Vec<u8> },
	Fatal { exit_status: ExitFatal },
}
impl From<ExitError> for PrecompileFailure {
	fn from(e: ExitError) -> Self {
		PrecompileFailure::Error { exit_status: e }
	}
}
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
#[derive(Clone, Debug)]
pub struct Context {
	pub address: H160,
	pub caller: H160,
	pub apparent_value: U256,
}
#[derive(Clone, Debug)]
pub struct Transfer {
	pub source: H160,
	pub target: H160,
	pub value: U256,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Log {
	pub address: H160,
	pub topics: Vec<H256>,
	pub data: Vec<u8>,
}
pub trait PrecompileHandle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
	fn remaining_gas(&self) -> u64;
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
	fn code_address(&self) -> H160;
	fn input(&self) -> &[u8];
	fn context(&self) -> &Context;
	fn is_static(&self) -> bool;
	fn gas_limit(&self) -> Option<u64>;
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum IsPrecompileResult {
	Answer { is_precompile: bool, extra_cost: u64 },
	OutOfGas,
}
pub trait PrecompileSet {
	fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
	fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
}
pub trait Precompile {
	fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult;
}
/// The EVM rules in force: the fields the precompiles read.
#[derive(Clone, Debug)]
pub struct EvmConfig {
	pub increase_state_access_gas: bool,
	pub gas_account_access_cold: u64,
	pub gas_storage_read_warm: u64,
	pub empty_considered_exists: bool,
	pub gas_call: u64,
}
impl EvmConfig {
	pub const fn london() -> Self {
		EvmConfig { increase_state_access_gas: true, gas_account_access_cold: 2600, gas_storage_read_warm: 100, empty_considered_exists: false, gas_call: 0 }
	}
}

// ---------------------------------------------------------------- pallet_evm
pub trait AddressMapping<A> {
	fn into_account_id(address: H160) -> A;
}
pub trait GasWeightMapping {
	fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight;
	fn weight_to_gas(weight: Weight) -> u64;
}
pub trait FeeCalculator {
	fn min_gas_price() -> (U256, Weight);
}
pub trait EnsureAddressOrigin<OuterOrigin> {
	type Success;
	fn ensure_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, crate::rt::DispatchError> {
		Self::try_address_origin(address, origin).map_err(|_| crate::rt::DispatchError::BadOrigin)
	}
	fn try_address_origin(address: &H160, origin: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum InvalidEvmTransactionError {
	BalanceTooLow,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Account {
	pub nonce: U256,
	pub balance: U256,
}
#[derive(Clone, Debug, Default)]
pub struct CheckEvmTransactionInput {
	pub to: Option<H160>,
	pub value: U256,
	pub gas_limit: U256,
	pub gas_price: U256,
}
pub struct CheckEvmTransaction<E> {
	pub transaction: CheckEvmTransactionInput,
	pub marker: PhantomData<E>,
}
pub trait HandleTxValidation<E: From<InvalidEvmTransactionError>> {
	/// Whether the sender can pay the value and the most the transaction may cost.
	fn with_balance_for(x: &CheckEvmTransaction<E>, who: &Account) -> Result<(), E> {
		let due = x.transaction.value.saturating_add(x.transaction.gas_limit.saturating_mul(x.transaction.gas_price));
		if who.balance < due {
			return Err(InvalidEvmTransactionError::BalanceTooLow.into());
		}
		Ok(())
	}
}
impl<E: From<InvalidEvmTransactionError>> HandleTxValidation<E> for () {}
pub trait OnChargeEVMTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
	fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Self::LiquidityInfo;
	fn pay_priority_fee(tip: Self::LiquidityInfo);
}
pub trait Config: system::Config {
	type AddressMapping: AddressMapping<Self::AccountId>;
	type GasWeightMapping: GasWeightMapping;
	type FeeCalculator: FeeCalculator;
	/// What runs a transaction once the fee proxy has passed it on.
	type Stack: Runner<Self, Error = Error<Self>>;
	/// What the pallets run transactions with.
	type Runner: Runner<Self>;
	fn config() -> &'static EvmConfig {
		static C: EvmConfig = EvmConfig::london();
		&C
	}
}
pub type BalanceOf<T> = <T as BalanceConfig>::Balance;
pub trait BalanceConfig {
	type Balance;
}
impl<T> BalanceConfig for T {
	type Balance = u128;
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Error<T> {
	BalanceLow,
	FeeOverflow,
	PaymentOverflow,
	WithdrawFailed,
	GasPriceTooLow,
	InvalidNonce,
	GasLimitTooLow,
	GasLimitTooHigh,
	Undefined,
	Reentrancy,
	TransactionMustComeFromEOA,
	__Ignore(PhantomData<T>, crate::storage::Never),
}
pub struct RunnerError<E> {
	pub error: E,
	pub weight: Weight,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CallInfo {
	pub exit_reason: ExitReason,
	pub value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CreateInfo {
	pub exit_reason: ExitReason,
	pub value: H160,
	pub used_gas: UsedGas,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct UsedGas {
	pub standard: U256,
	pub effective: U256,
}
pub trait Runner<T: Config> {
	type Error;
	fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, evm_config: &EvmConfig) -> Result<(), RunnerError<Self::Error>>;
	fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>>;
	fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
	fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
}
pub mod runner {
	pub mod stack {
		use super::super::*;
		/// The stack runner of pallet_evm: passes everything on to the harness.
		pub struct Runner<T>(PhantomData<T>);
		impl<T: Config> super::super::Runner<T> for Runner<T> {
			type Error = Error<T>;
			fn validate(a: H160, b: Option<H160>, c: Vec<u8>, d: U256, e: u64, f: Option<U256>, g: Option<U256>, h: Option<U256>, i: Vec<(H160, Vec<H256>)>, j: bool, l: Option<Weight>, m: Option<u64>, n: &EvmConfig) -> Result<(), RunnerError<Error<T>>> {
				T::Stack::validate(a, b, c, d, e, f, g, h, i, j, l, m, n)
			}
			fn call(a: H160, b: H160, c: Vec<u8>, d: U256, e: u64, f: Option<U256>, g: Option<U256>, h: Option<U256>, i: Vec<(H160, Vec<H256>)>, j: bool, k: bool, l: Option<Weight>, m: Option<u64>, n: &EvmConfig) -> Result<CallInfo, RunnerError<Error<T>>> {
				T::Stack::call(a, b, c, d, e, f, g, h, i, j, k, l, m, n)
			}
			fn create(a: H160, c: Vec<u8>, d: U256, e: u64, f: Option<U256>, g: Option<U256>, h: Option<U256>, i: Vec<(H160, Vec<H256>)>, j: bool, k: bool, l: Option<Weight>, m: Option<u64>, n: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				T::Stack::create(a, c, d, e, f, g, h, i, j, k, l, m, n)
			}
			fn create2(a: H160, c: Vec<u8>, s: H256, d: U256, e: u64, f: Option<U256>, g: Option<U256>, h: Option<U256>, i: Vec<(H160, Vec<H256>)>, j: bool, k: bool, l: Option<Weight>, m: Option<u64>, n: &EvmConfig) -> Result<CreateInfo, RunnerError<Error<T>>> {
				T::Stack::create2(a, c, s, d, e, f, g, h, i, j, k, l, m, n)
			}
		}
	}
}
#[derive(vmacros::CloneNoBound, vmacros::PartialEqNoBound, vmacros::RuntimeDebugNoBound, vmacros::Encode, vmacros::Decode)]
#[allow(non_camel_case_types)]
pub enum Call<T: Config> {
	call { source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: U256, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)> },
	withdraw { address: H160, value: u128 },
	#[doc(hidden)]
	__Ignore(PhantomData<T>),
}
impl<T: Config> Eq for Call<T> {}
impl<T: Config> crate::traits::UnfilteredDispatchable for Call<T> {
	type RuntimeOrigin = T::RuntimeOrigin;
	/// Not modelled: what an EVM call does.
	fn dispatch_bypass_filter(self, _origin: T::RuntimeOrigin) -> crate::support::dispatch::DispatchResultWithPostInfo {
		unimplemented!()
	}
}
impl<T: Config> crate::support::dispatch::GetDispatchInfo for Call<T> {
	fn get_dispatch_info(&self) -> crate::support::dispatch::DispatchInfo {
		crate::storage::any_dispatch_info()
	}
}
pub struct PCodes;
impl StorageInstance for PCodes {
	const STORAGE_PREFIX: &'static str = "AccountCodes";
	fn slot() -> &'static mut Slot {
		static mut S: Slot = Slot::NEW;
		unsafe { &mut *core::ptr::addr_of_mut!(S) }
	}
}
pub type Codes = StorageMap<PCodes, (), H160, Vec<u8>, ValueQuery>;
pub type AccountCodes<T> = StorageMap<PCodes, T, H160, Vec<u8>, ValueQuery>;
pub struct Pallet<T>(PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn create_account(address: H160, code: Vec<u8>) {
		Codes::insert(address, code)
	}
	pub fn account_code(address: H160) -> Vec<u8> {
		Codes::get(address)
	}
	pub fn remove_account(address: &H160) {
		Codes::remove(*address)
	}
	/// The address blocks are credited to.
	pub fn find_author() -> H160 {
		unsafe { AUTHOR }
	}
}
pub static mut AUTHOR: H160 = H160([0; 20]);

// ---------------------------------------------------------------- a handle to run precompiles with
/// What a precompile sees of the EVM, and a record of what it did.
pub struct Handle {
	pub input: Vec<u8>,
	pub context: Context,
	pub code: H160,
	pub gas: u64,
	pub stat: bool,
	pub logs: Vec<Log>,
	pub calls: Vec<(H160, H160, U256, Vec<u8>, bool)>,
	/// The transfers and answers of sub-calls.
	pub transfers: Vec<(H160, H160, U256)>,
	pub answer: Option<Box<dyn FnMut(&Handle) -> (ExitReason, Vec<u8>)>>,
}
impl Handle {
	pub fn new(code: H160, caller: H160, input: Vec<u8>) -> Self {
		Handle { input, context: Context { address: code, caller, apparent_value: U256::zero() }, code, gas: u64::MAX, stat: false, logs: vec![], calls: vec![], transfers: vec![], answer: None }
	}
}
impl PrecompileHandle for Handle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, _gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>) {
		if let Some(t) = transfer {
			self.transfers.push((t.source, t.target, t.value));
		}
		self.calls.push((to, context.caller, context.apparent_value, input, is_static));
		match self.answer.take() {
			Some(mut f) => {
				let r = f(self);
				self.answer = Some(f);
				r
			},
			None => (ExitReason::Succeed(ExitSucceed::Returned), vec![]),
		}
	}
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> {
		if cost > self.gas {
			return Err(ExitError::OutOfGas);
		}
		self.gas -= cost;
		Ok(())
	}
	fn remaining_gas(&self) -> u64 {
		self.gas
	}
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> {
		self.logs.push(Log { address, topics, data });
		Ok(())
	}
	fn code_address(&self) -> H160 {
		self.code
	}
	fn input(&self) -> &[u8] {
		&self.input
	}
	fn context(&self) -> &Context {
		&self.context
	}
	fn is_static(&self) -> bool {
		self.stat
	}
	fn gas_limit(&self) -> Option<u64> {
		Some(self.gas)
	}
}
