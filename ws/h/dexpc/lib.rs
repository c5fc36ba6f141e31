#![allow(non_snake_case, deprecated)]
use hrt::abi::{self, num, tuple, wa, wh, wn, wu, P};
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_dex::types::*;
use pallet_dex::{Pallet as Dex, *};
use pallet_evm_precompiles_dex::*;
use precompile_utils::prelude::{Address, ErcIdConversion};
use sp_core::{H160, H256, U256};
use sp_runtime::DispatchError;
use vstub::evm::*;

calls!(T, RtCall { Dx: pallet_dex::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	Fee: (u32, u32) = (3, 1000);
	Limit: u32 = 3;
	BurnId: PalletId = PalletId(*b"burnaddr");
	Dec: u8 = 18;
	DefFee: Option<PalletId> = None;
	Ed: u128 = 1;
	AssetDep: u128 = 0;
}
impl pallet_balances::Config for T {
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type ReserveIdentifier = [u8; 8];
}
impl pallet_assets::Config for T {
	type Balance = u128;
	type AssetId = u32;
	type AssetIdParameter = u32;
	type Currency = pallet_balances::Pallet<T>;
	type AssetDeposit = AssetDep;
	type WeightInfo = ();
}
impl pallet_dex::Config for T {
	type RuntimeEvent = ();
	type GetExchangeFee = Fee;
	type TradingPathLimit = Limit;
	type DEXBurnPalletId = BurnId;
	type LPTokenDecimals = Dec;
	type DefaultFeeTo = DefFee;
	type WeightInfo = ();
	type MultiCurrency = Ledger;
}
const ERC20: [u8; 4] = [0xCC; 4];
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
/// The gas token, two others, and the liquidity tokens of the pools 2/20 and 20/30.
const GAS: u32 = 2;
const B: u32 = 20;
const C: u32 = 30;
const LP: u32 = 100;
const LP2: u32 = 101;
const ASSETS: [u32; 5] = [GAS, B, C, LP, LP2];
fn here() -> H160 {
	H160([0xdd; 20])
}
fn pool(a: u32, b: u32, lp: u32, r0: u128, r1: u128, surplus: u128) {
	let p = TradingPair::new(a, b);
	LiquidityPool::<T>::insert(p, (r0, r1));
	TradingPairLPToken::<T>::insert(p, Some(lp));
	TradingPairStatuses::<T>::insert(p, TradingPairStatus::Enabled);
	let w: Acc = p.pool_address();
	Ledger::set(p.0, &w, r0 + surplus);
	Ledger::set(p.1, &w, r1);
}
/// Two pools, callers with any balances; the first pool may hold more than its reserves and may be disabled.
fn world(surplus: u128) {
	for a in ASSETS {
		Ledger::create(a, 1 << 100);
		for k in 0..2 {
			let b = sx::u128();
			sx::assume(b < 1 << 99);
			Ledger::set(a, &acc(k), b);
		}
	}
	Ledger::create(LP, 1_500_000);
	Ledger::create(LP2, 2_500_000);
	pool(GAS, B, LP, 1_000_000, 3_000_000, surplus);
	pool(B, C, LP2, 5_000_000, 2_000_000, 0);
	set_block(100);
}
fn erc20(id: u32) -> [u8; 32] {
	wh(T::runtime_id_to_evm_id(id, &ERC20).into())
}
/// A token address: that of the asset, or one that is none.
fn token(id: u32) -> ([u8; 32], Option<u32>) {
	if sx::bool() {
		(erc20(id), Some(id))
	} else {
		let b: [u8; 20] = sx::bytes();
		sx::assume(b[..4] != ERC20[..]);
		(wh(H160(b)), None)
	}
}
fn exec(h: &mut Handle) -> PrecompileResult {
	with_layer(|| <DexPrecompile<T> as Precompile>::execute(h))
}
fn twin<R>(h: &mut Handle, f: Option<impl FnOnce() -> Result<R, DispatchError>>) -> Option<(PrecompileOutput, R)> {
	let (r, a) = capture(|| exec(h));
	match f {
		None => {
			sx::check(r.is_err() && a.none(), "what cannot be represented is refused and changes nothing");
			sx::check(h.logs.is_empty(), "a refused call emits nothing");
			None
		},
		Some(f) => {
			let (d, b) = capture(|| with_layer(f));
			sx::check(r.is_ok() == d.is_ok(), "the call succeeds exactly if the same extrinsic of the caller does");
			sx::check(a.same(&b), "the call has exactly the effect of the same extrinsic of the caller");
			match (r, d) {
				(Ok(o), Ok(d)) => Some((o, d)),
				_ => {
					sx::check(h.logs.is_empty(), "a refused call emits nothing");
					None
				},
			}
		},
	}
}
fn handle(c: &Acc, a: Action, ps: &[P]) -> Handle {
	Handle::new(here(), (*c).into(), abi::call(a.into(), ps))
}
fn logged(l: &vstub::evm::Log, a: u32, b: u32, topics: &[[u8; 32]], data: &[P]) -> bool {
	let t: Vec<H256> = topics.iter().map(|t| H256(*t)).collect();
	let w: Acc = TradingPair::new(a, b).pool_address();
	l.address == H160::from(w) && l.topics == t && l.data == tuple(data)
}
fn to() -> Acc {
	if sx::bool() { acc(0) } else { acc(4) }
}
/// Adding liquidity, with the tokens in either order.
#[no_mangle]
pub extern "C" fn h_add() {
	world(if sx::bool() { 0 } else { 77 });
	let (c, to) = (acc(0), to());
	let (x, y) = match sx::choose(3) { 0 => (GAS, B), 1 => (B, GAS), _ => (GAS, GAS) };
	let (aw, a) = token(x);
	let (bw, b) = token(y);
	let (n1, v1) = num(128);
	let (n2, v2) = num(128);
	let (m1, w1) = num(128);
	let (m2, w2) = num(128);
	let (d, dv) = num(32);
	let mut h = handle(&c, Action::AddLiquidity, &[P::W(aw), P::W(bw), P::W(wu(n1)), P::W(wu(n2)), P::W(wu(m1)), P::W(wu(m2)), P::W(wa(&to)), P::W(wu(d))]);
	let f = match (a, b, v1, v2, w1, w2, dv) {
		(Some(a), Some(b), Some(v1), Some(v2), Some(w1), Some(w2), Some(d)) => Some(move || Dex::<T>::do_add_liquidity(&c, a, b, v1, v2, w1, w2, to, Some(d as u32))),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, (p, q, l))) => {
			sx::check(o.output == tuple(&[P::W(wn(p)), P::W(wn(q)), P::W(wn(l))]), "the answer is both amounts and the liquidity");
			let (p, q) = if x < y { (p, q) } else { (q, p) };
			sx::check(h.logs.len() == 1 && logged(&h.logs[0], x, y, &[SELECTOR_LOG_MINT, wa(&c)], &[P::W(wn(p)), P::W(wn(q))]), "the pool announces the liquidity added, in the pool's order");
			sx::reach("added");
		},
		None => sx::reach("refused"),
	}
}
/// The same with the gas token as second token; the value sent is its amount.
#[no_mangle]
pub extern "C" fn h_add_eth() {
	world(0);
	let (c, to) = (acc(0), to());
	let (aw, a) = token(B);
	let (n1, v1) = num(128);
	let (n2, v2) = num(128);
	let (m1, w1) = num(128);
	let (m2, w2) = num(128);
	let (d, dv) = num(32);
	let mut h = handle(&c, Action::AddLiquidityETH, &[P::W(aw), P::W(wu(n1)), P::W(wu(m1)), P::W(wu(m2)), P::W(wa(&to)), P::W(wu(d))]);
	h.context.apparent_value = n2;
	let f = match (a, v1, v2, w1, w2, dv) {
		(Some(a), Some(v1), Some(v2), Some(w1), Some(w2), Some(d)) => Some(move || Dex::<T>::do_add_liquidity(&c, a, GAS, v1, v2, w1, w2, to, Some(d as u32))),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, (p, q, l))) => {
			sx::check(o.output == tuple(&[P::W(wn(p)), P::W(wn(q)), P::W(wn(l))]), "the answer is both amounts and the liquidity");
			sx::check(h.logs.len() == 1 && logged(&h.logs[0], B, GAS, &[SELECTOR_LOG_MINT, wa(&c)], &[P::W(wn(q)), P::W(wn(p))]), "the pool announces the liquidity added, in the pool's order");
			sx::reach("added");
		},
		None => sx::reach("refused"),
	}
}
#[no_mangle]
pub extern "C" fn h_remove() {
	world(if sx::bool() { 0 } else { 77 });
	let (c, to) = (acc(0), to());
	let eth = sx::bool();
	let (x, y) = if eth { (B, GAS) } else { match sx::choose(3) { 0 => (GAS, B), 1 => (B, GAS), _ => (GAS, C) } };
	let (aw, a) = token(x);
	let (bw, b) = if eth { (erc20(y), Some(y)) } else { token(y) };
	let (n, v) = num(128);
	let (m1, w1) = num(128);
	let (m2, w2) = num(128);
	let (d, dv) = num(32);
	let mut ps = vec![P::W(aw)];
	if !eth {
		ps.push(P::W(bw));
	}
	ps.extend_from_slice(&[P::W(wu(n)), P::W(wu(m1)), P::W(wu(m2)), P::W(wa(&to)), P::W(wu(d))]);
	let mut h = handle(&c, if eth { Action::RemoveLiquidityETH } else { Action::RemoveLiquidity }, &ps);
	let f = match (a, b, v, w1, w2, dv) {
		(Some(a), Some(b), Some(v), Some(w1), Some(w2), Some(d)) => Some(move || Dex::<T>::do_remove_liquidity(&c, a, b, v, w1, w2, to, Some(d as u32))),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, (p, q))) => {
			sx::check(o.output == tuple(&[P::W(wn(p)), P::W(wn(q))]), "the answer is both amounts");
			let (p, q) = if x < y { (p, q) } else { (q, p) };
			sx::check(h.logs.len() == 1 && logged(&h.logs[0], x, y, &[SELECTOR_LOG_BURN, wa(&c), wa(&to)], &[P::W(wn(p)), P::W(wn(q))]), "the pool announces the liquidity removed, in the pool's order");
			sx::reach("removed");
		},
		None => sx::reach("refused"),
	}
}
fn path() -> (Vec<u32>, Vec<[u8; 32]>, bool) {
	let p = match sx::choose(7) {
		0 => vec![GAS, B],
		1 => vec![B, GAS],
		2 => vec![GAS, B, C],
		3 => vec![C, B, GAS],
		4 => vec![B, C],
		5 => vec![B],
		_ => vec![GAS, B, GAS],
	};
	let mut w = vec![];
	let mut ok = true;
	for (k, a) in p.iter().enumerate() {
		if k == p.len() - 1 {
			let (t, i) = token(*a);
			w.push(t);
			ok &= i.is_some();
		} else {
			w.push(erc20(*a));
		}
	}
	(p, w, ok)
}
fn swap(k: usize) {
	world(0);
	let (c, to) = (acc(0), to());
	let (p, pw, ok) = path();
	let (n1, v1) = num(128);
	let (n2, v2) = num(128);
	let (d, dv) = num(32);
	// which token must be the gas token: the one paid with the value, or the one paid out
	let (act, supply, value, ends) = match k {
		0 => (Action::SwapExactTokensForTokens, true, false, true),
		1 => (Action::SwapTokensForExactTokens, false, false, true),
		2 => (Action::SwapExactETHForTokens, true, true, p[0] == GAS),
		3 => (Action::SwapETHForExactTokens, false, true, p[0] == GAS),
		4 => (Action::SwapTokensForExactETH, false, false, p[p.len() - 1] == GAS),
		_ => (Action::SwapExactTokensForETH, true, false, p[p.len() - 1] == GAS),
	};
	let mut ps = vec![];
	// amountIn / amountOut first; the value replaces the amount paid
	match k {
		2 => ps.push(P::W(wu(n2))),
		3 => ps.push(P::W(wu(n1))),
		_ => ps.extend_from_slice(&[P::W(wu(n1)), P::W(wu(n2))]),
	}
	ps.extend_from_slice(&[P::A(pw), P::W(wa(&to)), P::W(wu(d))]);
	let mut h = handle(&c, act, &ps);
	if value {
		h.context.apparent_value = if supply { n1 } else { n2 };
	}
	let q = p.clone();
	let f = match (ok && ends, v1, v2, dv) {
		(true, Some(v1), Some(v2), Some(d)) => Some(move || if supply { Dex::<T>::do_swap_with_exact_supply(&c, v1, v2, &q, to, Some(d as u32)) } else { Dex::<T>::do_swap_with_exact_target(&c, v1, v2, &q, to, Some(d as u32)) }),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, (am, hops))) => {
			sx::check(o.output == tuple(&[P::A(am.iter().map(|a| wn(*a)).collect())]), "the answer is the amounts along the path");
			sx::check(h.logs.len() == p.len() - 1, "every pool of the path announces its swap");
			for j in 0..p.len() - 1 {
				let (i0, i1, o0, o1) = if p.len() == 3 && p[0] == p[2] {
					hops[j]
				} else if p[j] < p[j + 1] {
					(am[j], 0, 0, am[j + 1])
				} else {
					(0, am[j], am[j + 1], 0)
				};
				sx::check(logged(&h.logs[j], p[j], p[j + 1], &[SELECTOR_LOG_SWAP, wa(&c), wa(&to)], &[P::W(wn(i0)), P::W(wn(i1)), P::W(wn(o0)), P::W(wn(o1))]), "a pool announces what it took and gave, in the pool's order");
			}
			sx::reach("swapped");
		},
		None => sx::reach("refused"),
	}
}
#[no_mangle]
pub extern "C" fn h_swap_supply() {
	swap(0);
}
#[no_mangle]
pub extern "C" fn h_swap_target() {
	swap(1);
}
#[no_mangle]
pub extern "C" fn h_swap_from_eth() {
	swap(2 + sx::choose(2) as usize);
}
#[no_mangle]
pub extern "C" fn h_swap_to_eth() {
	swap(4 + sx::choose(2) as usize);
}
/// The views answer what the pallet computes.
#[no_mangle]
pub extern "C" fn h_views() {
	world(0);
	let k = sx::choose(5);
	let (n1, v1) = num(128);
	let (r1, w1) = num(128);
	let (r2, w2) = num(128);
	let c = acc(0);
	let args = [P::W(wu(n1)), P::W(wu(r1)), P::W(wu(r2))];
	let (mut h, want) = match k {
		0 => (
			handle(&c, Action::Quote, &args),
			match (w1, w2) { (Some(a), Some(b)) => Dex::<T>::quote(n1, a, b).ok().map(|x| wu(x).to_vec()), _ => None },
		),
		1 => (
			handle(&c, Action::GetAmountOut, &args),
			match (v1, w1, w2) { (Some(n), Some(a), Some(b)) => Dex::<T>::get_amount_out(n, a, b).ok().map(|x| wn(x).to_vec()), _ => None },
		),
		2 => (
			handle(&c, Action::GetAmountIn, &args),
			match (v1, w1, w2) { (Some(n), Some(a), Some(b)) => Dex::<T>::get_amount_in(n, a, b).ok().map(|x| wn(x).to_vec()), _ => None },
		),
		_ => {
			let (p, pw, ok) = path();
			let out = k == 3;
			let r = match (ok, v1) {
				(true, Some(n)) => if out { Dex::<T>::get_amounts_out(n, &p).ok() } else { Dex::<T>::get_amounts_in(n, &p).ok() },
				_ => None,
			};
			(handle(&c, if out { Action::GetAmountsOut } else { Action::GetAmountsIn }, &[P::W(wu(n1)), P::A(pw)]), r.map(|am| tuple(&[P::A(am.iter().map(|a| wn(*a)).collect())])))
		},
	};
	h.stat = sx::bool();
	let (r, a) = capture(|| exec(&mut h));
	sx::check(a.none() && h.logs.is_empty(), "a view changes nothing");
	match (r, want) {
		(Ok(o), Some(w)) => {
			sx::check(o.output == w, "a view answers what the DEX computes");
			sx::reach("answered");
		},
		(Err(_), None) => sx::reach("no answer"),
		_ => sx::check(false, "a view answers exactly if the DEX has an answer"),
	}
}
/// The value sent is moved to the precompile's address before it runs; it has to be what is traded.
#[no_mangle]
pub extern "C" fn h_value() {
	world(0);
	let (c, x) = (acc(0), here().into());
	let v = sx::u128();
	sx::assume(v > 0 && v <= Ledger::bal(GAS, &c));
	let before = Ledger::bal(GAS, &c);
	// the EVM moves the value first (taken in the same unit here)
	Ledger::set(GAS, &c, before - v);
	Ledger::set(GAS, &x, v);
	let mut h = handle(&c, Action::SwapExactETHForTokens, &[P::W(wn(0)), P::A(vec![erc20(GAS), erc20(B)]), P::W(wa(&c)), P::W(wn(200))]);
	h.context.apparent_value = U256::from(v);
	if exec(&mut h).is_ok() {
		sx::reach("swapped");
		sx::check(Ledger::bal(GAS, &c) == before - v && Ledger::bal(GAS, &x) == 0, "the caller pays the value he sent, once");
	}
}
/// Functions that change state refuse static calls, and all but the payable ones refuse value.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	world(0);
	let c = acc(0);
	for a in ASSETS {
		Ledger::set(a, &c, 1_000_000);
	}
	let k = sx::choose(15);
	let (g, b, n, d, me) = (P::W(erc20(GAS)), P::W(erc20(B)), P::W(wn(10_000)), P::W(wn(200)), P::W(wa(&c)));
	let z = P::W(wn(0));
	let gb = P::A(vec![erc20(GAS), erc20(B)]);
	let bg = P::A(vec![erc20(B), erc20(GAS)]);
	let big = P::W(wn(500_000));
	let s = |p: &P| p.clone();
	let mut h = match k {
		0 => handle(&c, Action::AddLiquidity, &[g, b, s(&n), n, s(&z), z, me, d]),
		1 => handle(&c, Action::AddLiquidityETH, &[b, n, s(&z), z, me, d]),
		2 => handle(&c, Action::RemoveLiquidity, &[g, b, n, s(&z), z, me, d]),
		3 => handle(&c, Action::RemoveLiquidityETH, &[b, n, s(&z), z, me, d]),
		4 => handle(&c, Action::SwapExactTokensForTokens, &[n, z, gb, me, d]),
		5 => handle(&c, Action::SwapTokensForExactTokens, &[n, big, gb, me, d]),
		6 => handle(&c, Action::SwapExactETHForTokens, &[z, gb, me, d]),
		7 => handle(&c, Action::SwapTokensForExactETH, &[n, big, bg, me, d]),
		8 => handle(&c, Action::SwapExactTokensForETH, &[n, z, bg, me, d]),
		9 => handle(&c, Action::SwapETHForExactTokens, &[n, gb, me, d]),
		10 => handle(&c, Action::Quote, &[s(&n), s(&n), n]),
		11 => handle(&c, Action::GetAmountOut, &[s(&n), s(&n), n]),
		12 => handle(&c, Action::GetAmountIn, &[z, s(&n), n]),
		13 => handle(&c, Action::GetAmountsOut, &[n, gb]),
		_ => handle(&c, Action::GetAmountsIn, &[n, gb]),
	};
	let payable = k == 1 || k == 6 || k == 9;
	let stat = sx::bool();
	h.stat = stat;
	let v = if sx::bool() { 500_000u128 } else { 0 };
	h.context.apparent_value = U256::from(v);
	let (r, a) = capture(|| exec(&mut h));
	if stat || k >= 10 {
		sx::check(a.none() && h.logs.is_empty(), "a static call changes nothing");
	}
	if v > 0 && !payable {
		sx::check(r.is_err() && a.none(), "only the payable functions take value");
	}
	match (r.is_ok(), stat) {
		(true, true) => {
			sx::check(k >= 10, "only the views answer a static call");
			sx::reach("a static view");
		},
		(true, false) => {
			if k < 10 {
				sx::reach("a call");
			}
			if payable {
				sx::reach("a payable call");
			}
		},
		_ => {
			sx::check(stat || (v > 0) != payable || k == 12, "every function can be called");
		},
	}
}
fn any_input(n: usize) {
	world(0);
	let mut v: Vec<u8> = sx::vec(n);
	if n >= 4 && sx::bool() {
		let k = sx::choose(4);
		let s: u32 = match k { 0 => Action::AddLiquidity, 1 => Action::SwapExactTokensForTokens, 2 => Action::GetAmountsOut, _ => Action::SwapETHForExactTokens }.into();
		v[..4].copy_from_slice(&s.to_be_bytes());
	}
	let mut h = Handle::new(here(), acc(0).into(), v);
	let (r, a) = capture(|| exec(&mut h));
	if r.is_err() {
		sx::check(a.none() && h.logs.is_empty(), "a reverted call changes nothing");
		sx::reach("refused");
	}
}
/// Any input at all: it never panics.
#[no_mangle]
pub extern "C" fn h_input() {
	any_input(sx::choose(8) as usize);
}
#[no_mangle]
pub extern "C" fn h_input_words() {
	let n = [36, 68, 100][sx::choose(3) as usize];
	any_input(n);
}
