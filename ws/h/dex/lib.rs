#![allow(non_snake_case)]
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_dex::types::*;
use pallet_dex::*;
use sp_core::U256;

sys!(T);
konst! {
	Fee: (u32, u32) = (3, 1000);
	Limit: u32 = 3;
	BurnId: PalletId = PalletId(*b"burnaddr");
	Dec: u8 = 18;
	DefFee: Option<PalletId> = Some(PalletId(*b"txfeepot"));
}
impl pallet_dex::Config for T {
	type RuntimeEvent = ();
	type GetExchangeFee = Fee;
	type TradingPathLimit = Limit;
	type DEXBurnPalletId = BurnId;
	type LPTokenDecimals = Dec;
	type DefaultFeeTo = DefFee;
	type WeightInfo = ();
	type MultiCurrency = Ledger;
}
const A: u32 = 10;
const B: u32 = 20;
const C: u32 = 30;
const LP: u32 = 100;

fn u(x: u128) -> U256 {
	U256::from(x)
}
/// k0 <= k1 where k = a*b
fn le_prod(a: u128, b: u128, c: u128, d: u128) -> bool {
	u(a) * u(b) <= u(c) * u(d)
}
struct Pool {
	pair: TradingPair,
	lp: u32,
	r0: u128,
	r1: u128,
}
impl Pool {
	fn addr(&self) -> Acc {
		self.pair.pool_address()
	}
	fn bal(&self, x: u32) -> u128 {
		Ledger::bal(x, &self.addr())
	}
}
/// An arbitrary pool whose reserves are backed by the balance of its account.
fn mk_pool(a: u32, b: u32, lp: u32) -> Pool {
	let pair = TradingPair::new(a, b);
	let (r0, r1) = (sx::u128(), sx::u128());
	LiquidityPool::<T>::insert(pair, (r0, r1));
	TradingPairLPToken::<T>::insert(pair, Some(lp));
	if sx::bool() {
		TradingPairStatuses::<T>::insert(pair, TradingPairStatus::Enabled);
	}
	let p = Pool { pair, lp, r0, r1 };
	let (d0, d1) = (sx::u128(), sx::u128());
	sx::assume(d0 >= r0 && d1 >= r1);
	Ledger::set(pair.0, &p.addr(), d0);
	Ledger::set(pair.1, &p.addr(), d1);
	p
}
fn mk_user(w: &Acc, assets: &[u32]) {
	for a in assets {
		Ledger::set(*a, w, sx::u128());
	}
}
/// Issuance bookkeeping: the supply of every asset is at least the sum of the listed balances.
fn mk_supply(a: u32, who: &[Acc]) {
	let s = sx::u128();
	let mut left = s;
	for w in who {
		let b = Ledger::bal(a, w);
		sx::assume(b <= left);
		left -= b;
	}
	Ledger::create(a, s);
}
fn fee_to() {
	if sx::bool() {
		FeeTo::<T>::put(Some(acc(9)));
		LiquidityPoolLastK::<T>::insert(LP, U256::any());
	} else {
		FeeTo::<T>::put(None::<Acc>);
	}
}
fn deadline() -> Option<u32> {
	let d = if sx::bool() { Some(sx::u32()) } else { None };
	set_block(sx::u32());
	d
}
fn now() -> u32 {
	frame_system::Pallet::<T>::block_number()
}

#[no_mangle]
pub extern "C" fn h_swap_supply() {
	let (w, to) = (acc(0), acc(1));
	let p = mk_pool(A, B, LP);
	mk_user(&w, &[A, B]);
	mk_user(&to, &[A, B]);
	mk_supply(A, &[p.addr(), w, to]);
	mk_supply(B, &[p.addr(), w, to]);
	Ledger::create(LP, sx::u128());
	FeeTo::<T>::put(None::<Acc>);
	let path = if sx::bool() { vec![A, B] } else { vec![B, A] };
	let (i, o) = (path[0], path[1]);
	let self_ = sx::bool();
	let rcpt = if self_ { w } else { to };
	let d = deadline();
	let (ain, min) = (sx::u128(), sx::u128());
	let (w_i, w_o, t_o) = (Ledger::bal(i, &w), Ledger::bal(o, &w), Ledger::bal(o, &rcpt));
	let (pi, po) = (p.bal(i), p.bal(o));
	let r = with_layer(|| Pallet::<T>::swap_with_exact_supply(signed!(w), ain, min, path, if self_ { None } else { Some(to) }, d));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(d.map_or(true, |d| d >= now()), "deadline respected");
		sx::check(Ledger::bal(i, &w) == w_i - ain, "exactly amount_in is paid");
		let got = Ledger::bal(o, &rcpt) - t_o;
		sx::check(Ledger::bal(o, &rcpt) >= t_o && got >= min && got > 0, "at least amount_out_min is received");
		sx::check(p.bal(i) == pi + ain && p.bal(o) == po - got, "the pool account moves by the swap amounts");
		let (n0, n1) = LiquidityPool::<T>::get(p.pair);
		sx::check(n0 == p.bal(p.pair.0) && n1 == p.bal(p.pair.1), "reserves equal the pool account's balances");
		sx::check(le_prod(p.r0, p.r1, n0, n1), "constant product does not decrease");
		sx::check(TradingPairStatuses::<T>::get(p.pair) == TradingPairStatus::Enabled, "only enabled pairs trade");
	} else {
		sx::reach("err");
		sx::check(Ledger::bal(i, &w) == w_i && Ledger::bal(o, &w) == w_o, "failed swap leaves the trader untouched");
		sx::check(p.bal(i) == pi && p.bal(o) == po, "failed swap leaves the pool untouched");
	}
}

#[no_mangle]
pub extern "C" fn h_swap_target() {
	let (w, to) = (acc(0), acc(1));
	let p = mk_pool(A, B, LP);
	mk_user(&w, &[A, B]);
	mk_user(&to, &[A, B]);
	mk_supply(A, &[p.addr(), w, to]);
	mk_supply(B, &[p.addr(), w, to]);
	Ledger::create(LP, sx::u128());
	FeeTo::<T>::put(None::<Acc>);
	let path = if sx::bool() { vec![A, B] } else { vec![B, A] };
	let (i, o) = (path[0], path[1]);
	let self_ = sx::bool();
	let rcpt = if self_ { w } else { to };
	let d = deadline();
	let (out, max) = (sx::u128(), sx::u128());
	let (w_i, w_o, t_o) = (Ledger::bal(i, &w), Ledger::bal(o, &w), Ledger::bal(o, &rcpt));
	let (pi, po) = (p.bal(i), p.bal(o));
	let r = with_layer(|| Pallet::<T>::swap_with_exact_target(signed!(w), out, max, path, if self_ { None } else { Some(to) }, d));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(d.map_or(true, |d| d >= now()), "deadline respected");
		let paid = w_i - Ledger::bal(i, &w);
		sx::check(Ledger::bal(i, &w) <= w_i && paid <= max && paid > 0, "at most amount_in_max is paid");
		sx::check(Ledger::bal(o, &rcpt) == t_o + out && out > 0, "exactly amount_out is received");
		sx::check(p.bal(i) == pi + paid && p.bal(o) == po - out, "the pool account moves by the swap amounts");
		let (n0, n1) = LiquidityPool::<T>::get(p.pair);
		sx::check(n0 == p.bal(p.pair.0) && n1 == p.bal(p.pair.1), "reserves equal the pool account's balances");
		sx::check(le_prod(p.r0, p.r1, n0, n1), "constant product does not decrease");
		sx::check(TradingPairStatuses::<T>::get(p.pair) == TradingPairStatus::Enabled, "only enabled pairs trade");
	} else {
		sx::reach("err");
		sx::check(Ledger::bal(i, &w) == w_i && Ledger::bal(o, &w) == w_o, "failed swap leaves the trader untouched");
		sx::check(p.bal(i) == pi && p.bal(o) == po, "failed swap leaves the pool untouched");
	}
}

/// Adding liquidity to a pool that already has LP tokens outstanding.
fn add(sw: bool, fee: bool) {
	let (w, to) = (acc(0), acc(1));
	let p = mk_pool(A, B, LP);
	mk_user(&w, &[A, B]);
	mk_supply(A, &[p.addr(), w]);
	mk_supply(B, &[p.addr(), w]);
	let t = sx::u128();
	sx::assume(t > 0 && p.r0 > 0 && p.r1 > 0);
	Ledger::create(LP, t);
	let lp0 = sx::u128();
	sx::assume(lp0 <= t);
	Ledger::set(LP, &to, lp0);
	if fee {
		fee_to();
	} else {
		FeeTo::<T>::put(None::<Acc>);
	}
	let (x, y) = if sw { (B, A) } else { (A, B) };
	let d = deadline();
	let (dx, dy, mx, my) = (sx::u128(), sx::u128(), sx::u128(), sx::u128());
	sx::assume(mx <= dx && my <= dy);
	let (wx, wy) = (Ledger::bal(x, &w), Ledger::bal(y, &w));
	let r = with_layer(|| Pallet::<T>::add_liquidity(signed!(w), x, y, dx, dy, mx, my, Some(to), d));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(d.map_or(true, |d| d >= now()), "deadline respected");
		let (ux, uy) = (wx - Ledger::bal(x, &w), wy - Ledger::bal(y, &w));
		sx::check(ux <= dx && uy <= dy && ux >= mx && uy >= my, "amounts taken lie between the minimum and the desired amounts");
		let minted = Ledger::bal(LP, &to) - lp0;
		sx::check(minted > 0 && Ledger::supply(LP) == t + minted, "LP supply grows by what the provider gets");
		let (n0, n1) = LiquidityPool::<T>::get(p.pair);
		sx::check(n0 == p.bal(p.pair.0) && n1 == p.bal(p.pair.1), "reserves equal the pool account's balances");
		sx::check(le_prod(t + minted, p.r0, t, n0) && le_prod(t + minted, p.r1, t, n1), "existing LP shares are not diluted");
		sx::check(TradingPairStatuses::<T>::get(p.pair) == TradingPairStatus::Enabled, "only enabled pairs take liquidity");
	} else {
		sx::reach("err");
		sx::check(Ledger::bal(x, &w) == wx && Ledger::bal(y, &w) == wy && Ledger::supply(LP) == t, "failure leaves balances untouched");
	}
}
#[no_mangle]
pub extern "C" fn h_add() {
	add(false, false)
}
#[no_mangle]
pub extern "C" fn h_add_swapped() {
	add(true, false)
}
#[no_mangle]
pub extern "C" fn h_add_fee() {
	add(false, true)
}
/// First liquidity of a pair, with the LP token created on the way.
#[no_mangle]
pub extern "C" fn h_add_first() {
	let (w, to) = (acc(0), acc(1));
	let pair = TradingPair::new(A, B);
	let pool = pair.pool_address();
	mk_user(&w, &[A, B]);
	mk_supply(A, &[w]);
	mk_supply(B, &[w]);
	let fresh = sx::bool();
	if fresh {
		Next::put(LP);
	} else {
		TradingPairLPToken::<T>::insert(pair, Some(LP));
		TradingPairStatuses::<T>::insert(pair, TradingPairStatus::Enabled);
		Ledger::create(LP, 0);
	}
	FeeTo::<T>::put(None::<Acc>);
	let d = deadline();
	let (dx, dy) = (sx::u128(), sx::u128());
	let (wx, wy) = (Ledger::bal(A, &w), Ledger::bal(B, &w));
	let r = with_layer(|| Pallet::<T>::add_liquidity(signed!(w), A, B, dx, dy, 0, 0, Some(to), d));
	if r.is_ok() {
		sx::reach("ok");
		let got = Ledger::bal(LP, &to);
		sx::check(TradingPairLPToken::<T>::get(pair) == Some(LP), "one LP token per pair");
		sx::check(Ledger::bal(A, &w) == wx - dx && Ledger::bal(B, &w) == wy - dy, "the desired amounts are taken");
		sx::check(Ledger::bal(LP, &Pallet::<T>::burn_account_id()) == 1000, "the minimum liquidity is locked for ever");
		sx::check(got > 0 && Ledger::supply(LP) == got + 1000, "LP supply is the provider's share plus the locked minimum");
		let s = u(got) + u(1000);
		sx::check(s * s <= u(dx) * u(dy), "initial LP supply is at most the geometric mean");
		let (n0, n1) = LiquidityPool::<T>::get(pair);
		sx::check(n0 == Ledger::bal(A, &pool) && n1 == Ledger::bal(B, &pool) && n0 == dx && n1 == dy, "reserves equal the pool account's balances");
	} else {
		sx::reach("err");
		sx::check(Ledger::bal(A, &w) == wx && Ledger::bal(B, &w) == wy, "failure leaves balances untouched");
		sx::check(TradingPairLPToken::<T>::get(pair).is_some() != fresh, "failure leaves no LP token behind");
	}
}
#[no_mangle]
pub extern "C" fn h_remove() {
	let (w, to) = (acc(0), acc(1));
	let p = mk_pool(A, B, LP);
	mk_user(&to, &[A, B]);
	mk_supply(A, &[p.addr(), to]);
	mk_supply(B, &[p.addr(), to]);
	let lp0 = sx::u128();
	Ledger::set(LP, &w, lp0);
	mk_supply(LP, &[w]);
	let t = Ledger::supply(LP);
	fee_to();
	let sw = sx::bool();
	let (x, y) = if sw { (B, A) } else { (A, B) };
	let d = deadline();
	let (l, mx, my) = (sx::u128(), sx::u128(), sx::u128());
	let (bx, by) = (p.bal(x), p.bal(y));
	let (tx, ty) = (Ledger::bal(x, &to), Ledger::bal(y, &to));
	let r = with_layer(|| Pallet::<T>::remove_liquidity(signed!(w), x, y, l, mx, my, Some(to), d));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(d.map_or(true, |d| d >= now()), "deadline respected");
		sx::check(l <= lp0 && Ledger::bal(LP, &w) == lp0 - l && Ledger::supply(LP) == t - l, "exactly the given LP tokens are burnt");
		let (gx, gy) = (Ledger::bal(x, &to) - tx, Ledger::bal(y, &to) - ty);
		sx::check(gx >= mx && gy >= my && gx > 0 && gy > 0, "at least the minimum amounts are paid out");
		sx::check(p.bal(x) == bx - gx && p.bal(y) == by - gy, "the pool pays what the provider receives");
		sx::check(le_prod(gx, t, l, bx) && le_prod(gy, t, l, by), "no more than the pro-rata share is paid out");
		let (n0, n1) = LiquidityPool::<T>::get(p.pair);
		sx::check(n0 == p.bal(p.pair.0) && n1 == p.bal(p.pair.1), "reserves equal the pool account's balances");
	} else {
		sx::reach("err");
		sx::check(Ledger::bal(LP, &w) == lp0 && Ledger::supply(LP) == t && p.bal(x) == bx && p.bal(y) == by, "failure leaves balances untouched");
	}
}
/// Pair switching is root-only and never touches funds.
#[no_mangle]
pub extern "C" fn h_switch() {
	let pair = TradingPair::new(A, B);
	let was = sx::bool();
	if sx::bool() {
		TradingPairLPToken::<T>::insert(pair, Some(LP));
	}
	if was {
		TradingPairStatuses::<T>::insert(pair, TradingPairStatus::Enabled);
	}
	let (x, y) = if sx::bool() { (A, B) } else { (B, A) };
	let root = sx::bool();
	let on = sx::bool();
	let o = if root { vstub::system::RawOrigin::Root.into() } else { signed!(any_acc()) };
	let r = with_layer(|| if on { Pallet::<T>::reenable_trading_pair(o, x, y) } else { Pallet::<T>::disable_trading_pair(o, x, y) });
	let is = TradingPairStatuses::<T>::get(pair) == TradingPairStatus::Enabled;
	if r.is_ok() {
		sx::reach("ok");
		sx::check(root && is == on && was != on, "only root switches a pair, to the requested state");
	} else {
		sx::reach("err");
		sx::check(is == was, "a refused switch changes nothing");
	}
}
/// A trade over two pools (or twice over the same one).
fn path(path: Vec<u32>, exact_in: bool) {
	let (w, to) = (acc(0), acc(1));
	let p = mk_pool(path[0], path[1], LP);
	let twice = path[2] == path[0];
	let q = if twice { None } else { Some(mk_pool(path[1], path[2], LP + 1)) };
	let (i, m, o) = (path[0], path[1], path[2]);
	let mut addrs = vec![p.addr(), w, to];
	if let Some(q) = &q {
		addrs.push(q.addr());
	}
	for a in if twice { vec![i, m] } else { vec![i, m, o] } {
		Ledger::set(a, &w, sx::u128());
		Ledger::set(a, &to, sx::u128());
		mk_supply(a, &addrs);
	}
	FeeTo::<T>::put(None::<Acc>);
	let d = deadline();
	let (x, y) = (sx::u128(), sx::u128());
	let bal = |a: u32, v: &Acc| Ledger::bal(a, v);
	let (w_i, w_m, t_o, t_i) = (bal(i, &w), bal(m, &w), bal(o, &to), bal(i, &to));
	let pm = p.bal(m) + q.as_ref().map_or(0, |q| q.bal(m));
	let r = with_layer(|| if exact_in { Pallet::<T>::swap_with_exact_supply(signed!(w), x, y, path, Some(to), d) } else { Pallet::<T>::swap_with_exact_target(signed!(w), x, y, path, Some(to), d) });
	if r.is_ok() {
		sx::reach("ok");
		sx::check(d.map_or(true, |d| d >= now()), "deadline respected");
		let paid = w_i - bal(i, &w);
		let got = bal(o, &to) - t_o;
		sx::check(bal(i, &w) <= w_i && bal(o, &to) >= t_o && bal(m, &w) == w_m, "the trader pays in the first and receives in the last asset");
		sx::check(if exact_in { paid == x && got >= y } else { paid <= y && got == x }, "the trader's bounds hold over the whole path");
		sx::check(p.bal(m) + q.as_ref().map_or(0, |q| q.bal(m)) == pm, "the asset in the middle only moves between the pools");
		for k in [Some(&p), q.as_ref()].into_iter().flatten() {
			let (n0, n1) = LiquidityPool::<T>::get(k.pair);
			sx::check(n0 == k.bal(k.pair.0) && n1 == k.bal(k.pair.1), "reserves equal the pool account's balances");
			sx::check(TradingPairStatuses::<T>::get(k.pair) == TradingPairStatus::Enabled, "only enabled pairs trade");
		}
	} else {
		sx::reach("err");
		sx::check(bal(i, &w) == w_i && bal(o, &to) == t_o && p.bal(m) + q.as_ref().map_or(0, |q| q.bal(m)) == pm && bal(i, &to) == t_i, "failed swap leaves everybody untouched");
	}
}
#[no_mangle]
pub extern "C" fn h_path_supply() {
	path(vec![A, B, C], true)
}
#[no_mangle]
pub extern "C" fn h_path_supply_2() {
	path(vec![B, A, C], true)
}
#[no_mangle]
pub extern "C" fn h_path_target() {
	path(vec![C, B, A], false)
}
#[no_mangle]
pub extern "C" fn h_path_twice() {
	path(vec![A, B, A], true)
}
