#![allow(unused)]
pub use vstub::evm::{EvmConfig as Config, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed};
