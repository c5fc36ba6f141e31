#![allow(non_snake_case)]
use frame_support::traits::fungibles::{Inspect, Mutate};
use frame_support::traits::{Currency, ExistenceRequirement, Imbalance, WithdrawReasons};
use frame_support::traits::tokens::{Fortitude, Preservation};
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_assets_ext::*;
use seed_pallet_common::{CreateExt, Hold, OnNewAssetSubscriber, TransferExt};
use seed_primitives::ParachainId;
use sp_runtime::traits::AccountIdConversion;

sys!(T);
konst! {
	Ed: u128 = 1;
	AssetDep: u128 = 0;
	Para: ParachainId = 100;
	Holds_: u32 = 3;
	Native: u32 = 1;
	Pid: PalletId = PalletId(*b"assetext");
	Gas: u32 = 2;
}
type Bal = pallet_balances::Pallet<T>;
type Ast = pallet_assets::Pallet<T>;
type Ext = Pallet<T>;
type Xrp = AssetCurrency<T, Gas>;
impl pallet_balances::Config for T {
	type Balance = u128;
	type ExistentialDeposit = Ed;
	type ReserveIdentifier = [u8; 8];
}
impl pallet_assets::Config for T {
	type Balance = u128;
	type AssetId = u32;
	type AssetIdParameter = u32;
	type Currency = Bal;
	type AssetDeposit = AssetDep;
	type WeightInfo = ();
}
impl pallet_assets_ext::Config for T {
	type RuntimeEvent = ();
	type ParachainId = Para;
	type MaxHolds = Holds_;
	type NativeAssetId = Native;
	type OnNewAssetSubscription = Rec2;
	type PalletId = Pid;
	type WeightInfo = ();
}
pub struct Rec2;
impl OnNewAssetSubscriber<u32> for Rec2 {
	fn on_asset_create(id: u32, p: &[u8; 4]) {
		Rec::on_asset_create(id, p)
	}
}
fn vault() -> Acc {
	Pid::get().into_account_truncating()
}
/// Gives `who` an arbitrary balance (possibly none) of `a`.
fn put(a: u32, who: &Acc, x: u128) {
	if a == 1 {
		if x > 0 {
			pallet_balances::Account::<T>::insert(who, pallet_balances::AccountData { free: x, reserved: 0, frozen: 0 })
		}
	} else {
		let m = pallet_assets::Asset::<T>::get(a).unwrap().min_balance;
		if sx::bool() {
			sx::assume(x >= m);
			pallet_assets::Account::<T>::insert(a, who, pallet_assets::AssetAccount { balance: x, frozen: false })
		} else {
			sx::assume(x == 0);
		}
	}
}
/// An asset whose issuance is at least what the listed accounts hold; returns their balances.
fn asset(a: u32, min: u128, whos: &[Acc]) -> Vec<u128> {
	let s = sx::u128();
	if a == 1 {
		pallet_balances::TotalIssuance::<T>::put(s)
	} else {
		// beyond this pallet_assets itself drops transfers (it re-checks supply + amount)
		sx::assume(s <= u128::MAX / 2);
		let o = acc(8);
		pallet_assets::Asset::<T>::insert(
			a,
			pallet_assets::AssetDetails { owner: o, issuer: acc(7), admin: acc(6), freezer: o, supply: s, min_balance: min, is_sufficient: true, status: pallet_assets::AssetStatus::Live },
		)
	}
	let mut left = s;
	let mut v = vec![];
	for w in whos {
		let b = sx::u128();
		sx::assume(b <= left);
		left -= b;
		put(a, w, b);
		v.push(b);
	}
	v
}
const P: [PalletId; 3] = [PalletId(*b"aaaaaaaa"), PalletId(*b"bbbbbbbb"), PalletId(*b"cccccccc")];
fn hold(p: usize, who: &Acc, a: u32) -> u128 {
	Ext::hold_balance(&P[p], who, &a)
}

/// Arbitrary holds: of account 0 by the pallets in `on`, and of account 1 by pallet 0. Returns the sum.
fn holds(a: u32, on: &[bool; 3], other: bool) -> u128 {
	let mut sum = 0u128;
	let mut v: Vec<([u8; 8], u128)> = vec![];
	for p in 0..3 {
		if on[p] {
			let x = sx::u128();
			sx::assume(x > 0 && x <= u128::MAX - sum);
			sum += x;
			v.push((P[p].0, x));
		}
	}
	if !v.is_empty() {
		Holds::<T>::insert(a, acc(0), frame_support::BoundedVec::try_from(v).ok().unwrap());
	}
	if other {
		let x = sx::u128();
		sx::assume(x > 0 && x <= u128::MAX - sum);
		sum += x;
		Holds::<T>::insert(a, acc(1), frame_support::BoundedVec::try_from(vec![(P[0].0, x)]).ok().unwrap());
	}
	sum
}
fn total(a: u32) -> u128 {
	(0..3).map(|p| hold(p, &acc(0), a)).fold(0, |x, y| x + y) + hold(0, &acc(1), a)
}
fn sorted(a: u32) -> bool {
	let h = Holds::<T>::get(a, acc(0));
	(1..h.len()).all(|i| h[i - 1].0 < h[i].0)
}
/// (free of 0, 1, 2, vault, issuance)
fn snap(a: u32) -> [u128; 5] {
	[Ext::balance(a, &acc(0)), Ext::balance(a, &acc(1)), Ext::balance(a, &acc(2)), Ext::balance(a, &vault()), Ext::total_issuance(a)]
}
struct W {
	a: u32,
	s: [u128; 5],
	h: [u128; 4],
}
/// Any consistent world: the vault holds at least what is on hold.
fn world(a: u32, min: u128, exact: bool) -> W {
	let c = sx::choose(4);
	wor(a, min, exact, c)
}
/// The same with the two extreme hold tables only.
fn lite(a: u32) -> W {
	let c = if sx::bool() { 0 } else { 3 };
	wor(a, 1, false, c)
}
fn wor(a: u32, min: u128, exact: bool, c: u64) -> W {
	let v = asset(a, min, &[acc(0), acc(1), acc(2), vault()]);
	let on = match c {
		0 => [false, false, false],
		1 => [true, false, false],
		2 => [false, true, true],
		_ => [true, true, true],
	};
	let sum = holds(a, &on, sx::bool());
	if exact {
		sx::assume(v[3] == sum);
	} else {
		sx::assume(v[3] >= sum);
	}
	W { a, s: snap(a), h: [hold(0, &acc(0), a), hold(1, &acc(0), a), hold(2, &acc(0), a), hold(0, &acc(1), a)] }
}
impl W {
	fn inv(&self) {
		let s = snap(self.a);
		sx::check(s[3] >= total(self.a), "the vault backs every hold");
		sx::check(sorted(self.a), "holds stay ordered by pallet");
	}
	fn others(&self, p: usize) {
		for q in 0..3 {
			sx::check(q == p || hold(q, &acc(0), self.a) == self.h[q], "other pallets' holds are untouched");
		}
		sx::check(hold(0, &acc(1), self.a) == self.h[3], "other accounts' holds are untouched");
	}
	fn same(&self) {
		sx::check(snap(self.a) == self.s && (0..3).all(|p| hold(p, &acc(0), self.a) == self.h[p]) && hold(0, &acc(1), self.a) == self.h[3], "a failed call changes nothing");
	}
}
fn place(a: u32) {
	let w = world(a, 1, false);
	let p = sx::choose(3) as usize;
	let x = sx::u128();
	let r = with_layer(|| Ext::place_hold(P[p], &acc(0), a, x));
	if r.is_ok() {
		sx::reach("ok");
		w.inv();
		w.others(p);
		let s = snap(a);
		sx::check(hold(p, &acc(0), a) == w.h[p] + x && w.s[0] >= x && s[0] == w.s[0] - x && s[3] == w.s[3] + x, "exactly the amount is put on hold");
		sx::check(s[1] == w.s[1] && s[2] == w.s[2] && s[4] == w.s[4], "a hold moves nobody else's money");
	} else {
		sx::reach("err");
		w.same();
	}
}
fn release(a: u32) {
	let w = world(a, 1, false);
	let p = sx::choose(3) as usize;
	let x = sx::u128();
	let r = with_layer(|| Ext::release_hold(P[p], &acc(0), a, x));
	if r.is_ok() {
		sx::reach("ok");
		w.inv();
		w.others(p);
		let s = snap(a);
		sx::check(x <= w.h[p] && hold(p, &acc(0), a) == w.h[p] - x && s[0] == w.s[0] + x && s[3] == w.s[3] - x, "exactly the amount is released");
		sx::check(s[1] == w.s[1] && s[2] == w.s[2] && s[4] == w.s[4], "a release moves nobody else's money");
	} else {
		sx::reach("err");
		w.same();
		sx::check(x > w.h[p] || w.h[p] == 0 || w.s[0].checked_add(x).is_none() || x == 0 && w.s[0] == 0, "a hold can be released");
	}
}
fn spend(a: u32) {
	let w = world(a, 1, false);
	let p = sx::choose(3) as usize;
	let n = sx::choose(3) as usize;
	// the amounts of one call are bounded by what exists
	let mut v = vec![];
	let mut left = u128::MAX;
	let mut to = [0u128; 3];
	for _ in 0..n {
		let x = sx::u128();
		sx::assume(x <= left);
		left -= x;
		let k = sx::choose(3) as usize;
		to[k] += x;
		v.push((acc(k as u8), x));
	}
	let sum = u128::MAX - left;
	let r = with_layer(|| Ext::spend_hold(P[p], &acc(0), a, &v));
	if r.is_ok() {
		sx::reach("ok");
		w.inv();
		w.others(p);
		let s = snap(a);
		sx::check(sum <= w.h[p] && hold(p, &acc(0), a) == w.h[p] - sum && s[3] == w.s[3] - sum, "exactly the spent amount leaves the hold");
		sx::check((0..3).all(|k| s[k] == w.s[k] + to[k]) && s[4] == w.s[4], "every payee receives its share");
	} else {
		sx::reach("err");
		w.same();
	}
}
macro_rules! two {
	($($f:ident $n:ident $b:ident;)*) => { $(
		#[no_mangle]
		pub extern "C" fn $n() { $f(2) }
		#[no_mangle]
		pub extern "C" fn $b() { $f(1) }
	)* };
}
two! {
	place h_place h_place_native;
	release h_release h_release_native;
	spend h_spend h_spend_native;
	split h_split h_split_native;
	transfer h_transfer h_transfer_native;
	mint h_mint h_mint_native;
	burn h_burn h_burn_native;
}
/// A minimum balance above one: the vault is an ordinary account of pallet_assets and must not be dusted.
fn min_world() -> (u128, W) {
	let m = sx::u128();
	sx::assume(m > 1);
	let w = world(2, m, true);
	sx::assume((0..4).all(|k| w.h[k] == 0 || w.h[k] >= m));
	(m, w)
}
impl W {
	fn min_inv(&self, m: u128) {
		self.inv();
		sx::check((0..3).all(|p| hold(p, &acc(0), 2) == 0 || hold(p, &acc(0), 2) >= m), "no hold is below the minimum balance");
	}
}
#[no_mangle]
pub extern "C" fn h_place_min() {
	let (m, w) = min_world();
	let p = sx::choose(3) as usize;
	let x = sx::u128();
	let r = with_layer(|| Ext::place_hold(P[p], &acc(0), 2, x));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(hold(p, &acc(0), 2) == w.h[p] + x, "exactly the amount is put on hold");
		sx::check(x == 0 || x >= m, "what is put on hold can be released again");
		w.min_inv(m);
	} else {
		sx::reach("err");
		w.same();
	}
}
#[no_mangle]
pub extern "C" fn h_release_min() {
	let (m, w) = min_world();
	let p = sx::choose(3) as usize;
	let x = sx::u128();
	let r = with_layer(|| Ext::release_hold(P[p], &acc(0), 2, x));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(Ext::balance(2, &acc(0)) == w.s[0] + x, "exactly the amount is released");
		w.min_inv(m);
	} else {
		sx::reach("err");
		w.same();
		sx::check(x != w.h[p] || x == 0, "a whole hold can be released");
	}
}
#[no_mangle]
pub extern "C" fn h_spend_min() {
	let (m, w) = min_world();
	let p = sx::choose(3) as usize;
	let (x, y) = (sx::u128(), sx::u128());
	sx::assume(x <= u128::MAX - y);
	let r = with_layer(|| Ext::spend_hold(P[p], &acc(0), 2, &[(acc(0), x), (acc(2), y)]));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(Ext::balance(2, &acc(0)) == w.s[0] + x && Ext::balance(2, &acc(2)) == w.s[2] + y, "every payee receives its share");
		w.min_inv(m);
	} else {
		sx::reach("err");
		w.same();
	}
}
fn split(a: u32) {
	split_n(a, 2)
}
#[no_mangle]
pub extern "C" fn h_split_3() {
	split_n(2, 3)
}
fn split_n(a: u32, n: usize) {
	let w = lite(a);
	let n = sx::choose(n as u64 + 1) as usize;
	let mut v = vec![];
	let mut left = u128::MAX;
	let mut to = [0u128; 3];
	for _ in 0..n {
		let x = sx::u128();
		sx::assume(x <= left);
		left -= x;
		let k = sx::choose(3) as usize;
		to[k] += x;
		v.push((acc(k as u8), x));
	}
	let sum = u128::MAX - left;
	let r = with_layer(|| Ext::split_transfer(&acc(0), a, &v));
	w.inv();
	w.others(9);
	if r.is_ok() {
		sx::reach("ok");
		let s = snap(a);
		sx::check(w.s[0] >= sum && s[0] == w.s[0] - sum + to[0] && s[1] == w.s[1] + to[1] && s[2] == w.s[2] + to[2] && s[3] == w.s[3] && s[4] == w.s[4], "a split transfer pays every part from the sender");
	} else {
		sx::reach("err");
		w.same();
	}
}
fn transfer(a: u32) {
	let w = lite(a);
	let (f, t) = (pick_acc(2), pick_acc(3));
	let x = sx::u128();
	let keep = sx::bool();
	let (f0, t0) = (Ext::balance(a, &f), Ext::balance(a, &t));
	let r = with_layer(|| Ext::transfer(signed!(f), a, t, x, keep));
	w.inv();
	w.others(9);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(f0 >= x && (f == t && Ext::balance(a, &f) == f0 || f != t && Ext::balance(a, &f) == f0 - x && Ext::balance(a, &t) == t0 + x), "a transfer moves exactly the amount");
		sx::check(!keep || x == 0 || f == t || f0 > x, "a keep-alive transfer leaves the sender alive");
		let s = snap(a);
		sx::check(s[4] == w.s[4] && s[3] == w.s[3], "a transfer does not change the issuance");
	} else {
		sx::reach("err");
		w.same();
	}
}
fn mint(a: u32) {
	let w = lite(a);
	let who = any_acc();
	let t = pick_acc(3);
	let x = sx::u128();
	let t0 = Ext::balance(a, &t);
	let r = with_layer(|| Ext::mint(signed!(who), a, t, x));
	w.inv();
	w.others(9);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(a != 1, "the native token is never minted by a call");
		sx::check(x == 0 || who == acc(7), "only the issuer mints");
		sx::check(Ext::balance(a, &t) == t0 + x && Ext::total_issuance(a) == w.s[4] + x && t0 + x >= t0 && w.s[4].checked_add(x).is_some(), "a mint credits exactly the amount");
	} else {
		sx::reach("err");
		w.same();
	}
}
fn burn(a: u32) {
	let w = lite(a);
	let who = any_acc();
	let t = pick_acc(3);
	let x = sx::u128();
	let t0 = Ext::balance(a, &t);
	let r = with_layer(|| Ext::burn_from(signed!(who), a, t, x));
	w.inv();
	w.others(9);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(a != 1, "the native token is never burnt by a call");
		sx::check(x == 0 || who == acc(6), "only the admin burns");
		let d = if x < t0 { x } else { t0 };
		sx::check(Ext::balance(a, &t) == t0 - d && Ext::total_issuance(a) == w.s[4] - d, "a burn removes at most the amount, from balance and issuance alike");
	} else {
		sx::reach("err");
		w.same();
	}
}
#[no_mangle]
pub extern "C" fn h_create() {
	let who = acc(0);
	let bal = sx::u128();
	put(1, &who, bal);
	pallet_balances::TotalIssuance::<T>::put(u128::MAX);
	let dep = sx::u128();
	AssetDeposit::<T>::put(dep);
	let n = sx::u32();
	sx::assume(n < 1 << 23);
	NextAssetId::<T>::put(n);
	let dec = sx::u8();
	let min = if sx::bool() { Some(sx::u128()) } else { None };
	let owner = if sx::bool() { Some(any_acc()) } else { None };
	// some other asset that exists already
	let k = sx::u32();
	sx::assume(k >= 1 && k < n && k < 1 << 22);
	let kid = (k << 10) | 100;
	let o = acc(8);
	pallet_assets::Asset::<T>::insert(kid, pallet_assets::AssetDetails { owner: o, issuer: o, admin: o, freezer: o, supply: 5u128, min_balance: 1, is_sufficient: true, status: pallet_assets::AssetStatus::Live });
	let r = with_layer(|| Ext::create_asset(signed!(who), b"abc".to_vec(), b"X".to_vec(), dec, min, owner));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(dec <= 18, "at most 18 decimals");
		let now = NextAssetId::<T>::get();
		sx::check(now == n + 1, "the id counter advances by one");
		let id = NewAssets::get()[0];
		sx::check(NewAssets::get().len() == 1 && id >> 10 == n && id & 1023 == 100, "the new id encodes counter and chain");
		sx::check(id != kid && pallet_assets::Asset::<T>::get(kid).unwrap().owner == o, "a new asset never replaces an existing one");
		let d = pallet_assets::Asset::<T>::get(id).unwrap();
		sx::check(d.owner == owner.unwrap_or(who) && d.issuer == owner.unwrap_or(who), "the requested owner owns the asset");
		sx::check(d.supply == 0 && d.min_balance == min.unwrap_or(1), "a new asset starts empty");
		sx::check(<Ast as fungibles_meta::Inspect<Acc>>::decimals(id) == dec, "metadata as requested");
		let b = Bal::account(&who);
		sx::check(bal >= dep && b.free == bal - dep && b.reserved == dep, "the creator's deposit is reserved");
	} else {
		sx::reach("err");
		sx::check(NextAssetId::<T>::get() == n && NewAssets::get().is_empty() && Bal::account(&who).free == bal, "a failed creation changes nothing");
	}
}
use frame_support::traits::fungibles::metadata as fungibles_meta;
#[no_mangle]
pub extern "C" fn h_deposit_cfg() {
	let d0 = sx::u128();
	AssetDeposit::<T>::put(d0);
	let d = sx::u128();
	let root = sx::bool();
	let r = Ext::set_asset_deposit(if root { vstub::system::RawOrigin::Root.into() } else { signed!(any_acc()) }, d);
	sx::check(r.is_ok() == root && AssetDeposit::<T>::get() == if root { d } else { d0 }, "only root changes the asset deposit");
	sx::reach("ok");
}
/// The gas currency: issuance follows every withdrawal and deposit exactly.
#[no_mangle]
pub extern "C" fn h_currency() {
	let w = lite(2);
	let who = pick_acc(2);
	let b0 = Ext::balance(2, &who);
	let x = sx::u128();
	let i0 = w.s[4];
	let keep = if sx::bool() { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath };
	match sx::choose(4) {
		0 => match Xrp::withdraw(&who, x, WithdrawReasons::all(), keep) {
			Ok(im) => {
				sx::reach("ok");
				sx::check(im.peek() == x && b0 >= x && Ext::balance(2, &who) == b0 - x, "a withdrawal takes exactly the amount");
				// part of it is refunded, the rest burnt
				let y = sx::u128();
				let (a, b) = im.split(y);
				sx::check(a.peek() == x.min(y) && a.peek() + b.peek() == x, "splitting an imbalance loses nothing");
				let back = a.peek();
				let p = Xrp::deposit_creating(&acc(2), back);
				sx::check(p.peek() == back || p.peek() == 0, "a deposit is whole or nothing");
				let got = Ext::balance(2, &acc(2)) - w.s[2] - if who == acc(2) { 0 } else { 0 };
				sx::check(got == p.peek(), "a deposit credits exactly the imbalance");
				let paid = p.peek();
				let _ = a.offset(p);
				drop(b);
				sx::check(Ext::total_issuance(2) == i0 - x + paid, "the issuance follows withdrawal and deposit");
			},
			Err(_) => {
				sx::reach("err");
				w.same();
			},
		},
		1 => match Xrp::deposit_into_existing(&who, x) {
			Ok(im) => {
				sx::check(im.peek() == x && Ext::balance(2, &who) == b0 + x, "a deposit credits exactly the amount");
				drop(im);
				sx::check(Ext::total_issuance(2) == i0 + x && i0.checked_add(x).is_some(), "the issuance follows a deposit");
			},
			Err(_) => w.same(),
		},
		2 => {
			let new = x;
			let im = Xrp::make_free_balance_be(&who, new);
			let b1 = Ext::balance(2, &who);
			sx::check(b1 == new || b1 == b0, "a balance is set or left");
			drop(im);
			let i1 = Ext::total_issuance(2);
			sx::check(if b1 >= b0 { i1 == i0 + (b1 - b0) } else { i1 == i0 - (b0 - b1) }, "the issuance follows a set balance");
		},
		_ => {
			let t = acc(2);
			let t0 = w.s[2];
			if Xrp::transfer(&who, &t, x, keep).is_ok() {
				sx::check(b0 >= x && Ext::balance(2, &who) == b0 - x && Ext::balance(2, &t) == t0 + x && Ext::total_issuance(2) == i0, "a gas-currency transfer moves exactly the amount");
			} else {
				w.same();
			}
		},
	}
}
