#![allow(non_snake_case)]
use frame_support::traits::fungibles::{self, Inspect};
use frame_support::traits::tokens::{Fortitude, Preservation};
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_assets_ext::Pallet as Ext;
use pallet_evm_precompiles_erc20::*;
use precompile_utils::prelude::*;
use seed_pallet_common::{CreateExt, OnNewAssetSubscriber};
use seed_primitives::ParachainId;
use sp_core::{H160, H256, U256};
use vstub::evm::*;

calls!(T, RtCall { Aext: pallet_assets_ext::Call<T>, Appr: pallet_token_approvals::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	Ed: u128 = 1;
	AssetDep: u128 = 0;
	Para: ParachainId = 100;
	Holds_: u32 = 3;
	Native: u32 = 1;
	Pid: PalletId = PalletId(*b"assetext");
}
impl pallet_balances::Config for T {
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type ReserveIdentifier = [u8; 8];
}
impl pallet_assets::Config for T {
	type Balance = u128;
	type AssetId = u32;
	type AssetIdParameter = u32;
	type Currency = pallet_balances::Pallet<T>;
	type AssetDeposit = AssetDep;
	type WeightInfo = ();
}
impl pallet_assets_ext::Config for T {
	type RuntimeEvent = ();
	type ParachainId = Para;
	type MaxHolds = Holds_;
	type NativeAssetId = Native;
	type OnNewAssetSubscription = Rec2;
	type PalletId = Pid;
	type WeightInfo = ();
}
impl pallet_token_approvals::Config for T {
	type NFTExt = Nfts;
	type WeightInfo = ();
}
pub struct Rec2;
impl OnNewAssetSubscriber<u32> for Rec2 {
	fn on_asset_create(_: u32, _: &[u8; 4]) {}
}
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
const A: u32 = (5 << 10) | 100;
fn code() -> H160 {
	T::runtime_id_to_evm_id(A, &[0xCC; 4]).into()
}
/// An account picked among three.
fn who() -> Acc {
	pick_acc(3)
}
fn bal(w: &Acc) -> u128 {
	pallet_assets::Account::<T>::get(A, w).map(|a| a.balance).unwrap_or(0)
}
fn allow(o: &Acc, s: &Acc) -> u128 {
	pallet_token_approvals::ERC20Approvals::<T>::get((o, A), s).unwrap_or(0)
}
fn token(s: u128) {
	pallet_assets::Asset::<T>::insert(
		A,
		pallet_assets::AssetDetails { owner: acc(8), issuer: acc(7), admin: acc(6), freezer: acc(8), supply: s, min_balance: 1, is_sufficient: true, status: pallet_assets::AssetStatus::Live },
	);
}
/// An asset with an arbitrary issuance, three accounts with arbitrary shares of it, and an arbitrary allowance.
fn setup() {
	let s = sx::u128();
	sx::assume(s <= u128::MAX / 2);
	token(s);
	let mut left = s;
	for i in 0..3 {
		let b = sx::u128();
		sx::assume(b <= left);
		left -= b;
		if b > 0 {
			pallet_assets::Account::<T>::insert(A, acc(i), pallet_assets::AssetAccount { balance: b, frozen: false });
		}
	}
	let al = sx::u128();
	if al > 0 {
		pallet_token_approvals::ERC20Approvals::<T>::insert((acc(0), A), acc(1), al);
	}
}
/// `selector` followed by 32-byte words.
fn input(selector: Action, words: &[[u8; 32]]) -> Vec<u8> {
	let n: u32 = selector.into();
	let mut v = n.to_be_bytes().to_vec();
	for w in words {
		v.extend_from_slice(w);
	}
	v
}
fn wa(a: &Acc) -> [u8; 32] {
	let mut w = [0; 32];
	w[12..].copy_from_slice(&H160::from(*a).0);
	w
}
fn wu(x: U256) -> [u8; 32] {
	let mut w = [0; 32];
	x.to_big_endian(&mut w);
	w
}
fn run(h: &mut Handle) -> PrecompileResult {
	Erc20PrecompileSet::<T>::new().execute(h).expect("the asset exists")
}
fn any_u256() -> U256 {
	U256::from_big_endian(&sx::bytes::<32>())
}
/// An amount: any 256-bit number.
fn amount() -> U256 {
	(U256::from(sx::u128()) << 128usize) | U256::from(sx::u128())
}
fn fits(x: U256) -> Option<u128> {
	if x > U256::from(u128::MAX) { None } else { Some(x.as_u128()) }
}
fn num(o: &PrecompileOutput) -> U256 {
	sx::check(o.output.len() == 32, "the answer is one word");
	U256::from_big_endian(&o.output)
}

/// The views answer what the ledger and the approvals hold, for every account, and change nothing.
#[no_mangle]
pub extern "C" fn h_views() {
	setup();
	let (o, s) = (who(), who());
	let w0 = writes();
	let c = who();
	let mut h = Handle::new(code(), c.into(), input(Action::TotalSupply, &[]));
	sx::check(num(&run(&mut h).unwrap()) == U256::from(pallet_assets::Asset::<T>::get(A).unwrap().supply), "totalSupply is the issuance");
	let mut h = Handle::new(code(), c.into(), input(Action::BalanceOf, &[wa(&o)]));
	sx::check(num(&run(&mut h).unwrap()) == U256::from(bal(&o)), "balanceOf is what the account can move");
	let mut h = Handle::new(code(), c.into(), input(Action::Allowance, &[wa(&o), wa(&s)]));
	let al = num(&run(&mut h).unwrap());
	sx::check(al == U256::from(allow(&o, &s)), "allowance is the approved amount");
	sx::check(writes() == w0, "a view writes nothing");
	if al > U256::zero() { sx::reach("an allowance"); }
	if o != acc(0) { sx::reach("another account"); }
}
/// transfer moves exactly the amount from the caller to the recipient, or reverts and moves nothing.
#[no_mangle]
pub extern "C" fn h_transfer() {
	setup();
	let (c, to) = (who(), who());
	let x = amount();
	let b: Vec<u128> = (0..3).map(|i| bal(&acc(i))).collect();
	let sup = pallet_assets::Asset::<T>::get(A).unwrap().supply;
	let al = allow(&acc(0), &acc(1));
	let mut h = Handle::new(code(), c.into(), input(Action::Transfer, &[wa(&to), wu(x)]));
	let r = run(&mut h);
	let i = (0..3u8).find(|i| acc(*i) == c).unwrap() as usize;
	let j = (0..3u8).find(|i| acc(*i) == to).unwrap() as usize;
	match &r {
		Ok(o) => {
			sx::check(fits(x).is_some(), "more than can exist is not moved");
			let x = x.as_u128();
			sx::check(x <= b[i], "only what the caller has is moved");
			for k in 0..3 {
				let want = b[k] - if k == i { x } else { 0 } + if k == j { x } else { 0 };
				sx::check(bal(&acc(k as u8)) == want, "exactly the amount moves from the caller to the recipient");
			}
			sx::check(num(o) == U256::one(), "the answer is true");
			sx::check(h.logs.len() == 1, "one event");
			let l = &h.logs[0];
			sx::check(l.address == code() && l.topics == vec![H256(SELECTOR_LOG_TRANSFER), H256(wa(&c)), H256(wa(&to))] && l.data == wu(U256::from(x)).to_vec(), "the event names sender, recipient and the amount moved");
			if x > 0 && i != j { sx::reach("transferred"); }
			if i == j { sx::reach("to oneself"); }
		},
		Err(_) => {
			for k in 0..3 {
				sx::check(bal(&acc(k as u8)) == b[k], "a refused transfer moves nothing");
			}
			sx::check(h.logs.is_empty(), "a refused transfer emits nothing");
			sx::check(fits(x).map_or(true, |x| x > b[i] || x == 0), "an affordable transfer is not refused");
			sx::reach("refused");
		},
	}
	sx::check(pallet_assets::Asset::<T>::get(A).unwrap().supply == sup, "the issuance is untouched");
	sx::check(allow(&acc(0), &acc(1)) == al, "allowances are untouched");
}
/// approve sets the caller's allowance for the spender, nobody else's.
#[no_mangle]
pub extern "C" fn h_approve() {
	setup();
	let (c, s) = (who(), who());
	let x = amount();
	let al: Vec<Vec<u128>> = (0..3).map(|i| (0..3).map(|j| allow(&acc(i), &acc(j))).collect()).collect();
	let b: Vec<u128> = (0..3).map(|i| bal(&acc(i))).collect();
	let mut h = Handle::new(code(), c.into(), input(Action::Approve, &[wa(&s), wu(x)]));
	let r = run(&mut h);
	let want = fits(x).unwrap_or(u128::MAX);
	for i in 0..3u8 {
		for j in 0..3u8 {
			let set = r.is_ok() && acc(i) == c && acc(j) == s;
			sx::check(allow(&acc(i), &acc(j)) == if set { want } else { al[i as usize][j as usize] }, "the caller's allowance for the spender becomes the amount, all others stay");
		}
		sx::check(bal(&acc(i)) == b[i as usize], "no balance changes");
	}
	if let Ok(o) = &r {
		sx::check(num(o) == U256::one(), "the answer is true");
		sx::check(h.logs.len() == 1 && h.logs[0].topics == vec![H256(SELECTOR_LOG_APPROVAL), H256(wa(&c)), H256(wa(&s))] && h.logs[0].data == wu(U256::from(want)).to_vec(), "the event names owner, spender and amount");
		sx::reach("approved");
		if fits(x).is_none() { sx::reach("an unlimited approval"); }
	} else {
		sx::check(h.logs.is_empty(), "a refused approval emits nothing");
		sx::check(c == s, "only approving oneself is refused");
		sx::reach("refused");
	}
}
/// transferFrom moves at most what the owner approved for the caller, and uses the approval up by it.
#[no_mangle]
pub extern "C" fn h_transfer_from() {
	setup();
	let (c, from, to) = (who(), who(), who());
	let x = amount();
	let b: Vec<u128> = (0..3).map(|i| bal(&acc(i))).collect();
	let al = allow(&from, &c);
	let others: Vec<u128> = (0..9).map(|k| allow(&acc(k / 3), &acc(k % 3))).collect();
	let mut h = Handle::new(code(), c.into(), input(Action::TransferFrom, &[wa(&from), wa(&to), wu(x)]));
	// a revert of the precompile rolls back everything it did
	let r = with_layer(|| run(&mut h));
	let ok = r.is_ok();
	if ok {
		sx::check(fits(x).is_some(), "more than can exist is not moved");
		let x = x.as_u128();
		sx::check(x <= al, "only what was approved is moved");
		sx::check(allow(&from, &c) == al - x, "the approval is used up by the amount");
		for k in 0..3u8 {
			let mut want = b[k as usize];
			if acc(k) == from {
				sx::check(want >= x, "only what the owner has is moved");
				want -= x;
			}
			if acc(k) == to {
				want += x;
			}
			sx::check(bal(&acc(k)) == want, "exactly the amount moves from the owner to the recipient");
		}
		sx::check(h.logs.len() == 1 && h.logs[0].topics == vec![H256(SELECTOR_LOG_TRANSFER), H256(wa(&from)), H256(wa(&to))] && h.logs[0].data == wu(U256::from(x)).to_vec(), "the event names owner, recipient and the amount moved");
		if x > 0 && al > x { sx::reach("part of the approval"); }
		if x > 0 && al == x { sx::reach("all of the approval"); }
	} else {
		for k in 0..3u8 {
			sx::check(bal(&acc(k)) == b[k as usize], "a refused transfer moves nothing");
		}
		sx::check(allow(&from, &c) == al, "a refused transfer leaves the approval");
		let owned = (0..3u8).find(|k| acc(*k) == from).map(|k| b[k as usize]).unwrap();
		sx::check(al == 0 || fits(x).map_or(true, |x| x > al || x > owned || x == 0), "an approved, affordable transfer is not refused");
		sx::reach("refused");
	}
	for k in 0..9u8 {
		if !(acc(k / 3) == from && acc(k % 3) == c) {
			sx::check(allow(&acc(k / 3), &acc(k % 3)) == others[k as usize], "other approvals stay");
		}
	}
}
/// Calls that move value refuse ether and static contexts; no input makes the precompile panic.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	setup();
	let n = sx::choose(9);
	let sel = match n {
		0 => Action::TotalSupply,
		1 => Action::BalanceOf,
		2 => Action::Allowance,
		3 => Action::Transfer,
		4 => Action::Approve,
		5 => Action::TransferFrom,
		6 => Action::Name,
		7 => Action::Symbol,
		_ => Action::Decimals,
	};
	let writes_state = n >= 3 && n <= 5;
	let mut h = Handle::new(code(), who().into(), input(sel, &[wa(&acc(1)), wa(&acc(2)), [0; 32]]));
	h.stat = sx::bool();
	h.context.apparent_value = any_u256();
	let w0 = writes();
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(h.context.apparent_value.is_zero(), "no function of the token accepts value");
		sx::check(!h.stat || !writes_state, "a static call changes nothing");
		if !writes_state {
			sx::check(writes() == w0 && h.logs.is_empty(), "a view writes nothing");
		}
		if h.stat { sx::reach("a static view"); }
		if writes_state { sx::reach("a call"); }
	} else {
		sx::reach("refused");
	}
}
/// Any input at all is answered or reverted: nothing panics, and gas is only ever spent.
#[no_mangle]
pub extern "C" fn h_any_input() {
	token(1000);
	pallet_assets::Account::<T>::insert(A, acc(0), pallet_assets::AssetAccount { balance: 900, frozen: false });
	pallet_token_approvals::ERC20Approvals::<T>::insert((acc(0), A), acc(0), 5);
	let len = [0, 3, 4, 35, 68, 100][sx::choose(6) as usize];
	let mut h = Handle::new(code(), acc(0).into(), sx::vec(len));
	h.gas = if sx::bool() { u64::MAX } else { sx::u64() };
	let g = h.gas;
	let r = run(&mut h);
	sx::check(h.gas <= g, "gas is only spent");
	if r.is_ok() {
		sx::reach("answered");
	} else {
		sx::reach("reverted");
	}
}
/// Only addresses of existing assets are tokens.
#[no_mangle]
pub extern "C" fn h_address() {
	setup();
	let a = H160(sx::bytes::<20>());
	let is = a.0[..4] == [0xCC; 4] && { let id = u32::from_be_bytes([a.0[4], a.0[5], a.0[6], a.0[7]]); id == A || id == 1 };
	let s = Erc20PrecompileSet::<T>::new();
	match s.is_precompile(a, 0) {
		IsPrecompileResult::Answer { is_precompile, .. } => sx::check(is_precompile == is, "an address is a token exactly when it encodes an existing asset"),
		_ => sx::check(false, "the question is answered"),
	}
	let mut h = Handle::new(a, acc(0).into(), input(Action::TotalSupply, &[]));
	let r = s.execute(&mut h);
	sx::check(r.is_some() == is, "exactly the addresses of existing assets are answered");
	if is { sx::reach("a token"); }
	if !is { sx::reach("another address"); }
}
