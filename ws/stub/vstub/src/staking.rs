//! What the pallets use of pallet_staking.
use crate::cdc::*;
pub trait Config: crate::system::Config {
	type CurrencyBalance: crate::rt::traits::AtLeast32BitUnsigned + crate::system::Parameter + Copy + Default + From<u64>;
}
pub type BalanceOf<T> = <T as Config>::CurrencyBalance;
pub type RewardPoint = u32;
pub trait EraPayout<B> {
	fn era_payout(total_staked: B, total_issuance: B, era_duration_millis: u64) -> (B, B);
}
