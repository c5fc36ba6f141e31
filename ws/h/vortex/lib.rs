#![allow(non_snake_case)]
use frame_support::traits::Hooks;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, prefix, signed, sys};
use pallet_vortex_distribution::*;
use sp_core::U256;
use sp_runtime::traits::AccountIdConversion;

sys!(T, RtCall);
/// The runtime call: only the pallet's own calls matter here.
#[derive(Clone, PartialEq, Debug)]
pub struct RtCall(Option<Call<T>>);
impl Eq for RtCall {}
impl codec::Encode for RtCall {
	fn encode_to<O: codec::Output + ?Sized>(&self, _o: &mut O) {}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl codec::Decode for RtCall {
	fn decode<I: codec::Input>(_i: &mut I) -> Result<Self, codec::Error> {
		Ok(RtCall(None))
	}
}
impl From<frame_system::Call<T>> for RtCall {
	fn from(_: frame_system::Call<T>) -> Self {
		RtCall(None)
	}
}
impl From<Call<T>> for RtCall {
	fn from(c: Call<T>) -> Self {
		RtCall(Some(c))
	}
}
impl frame_support::dispatch::Dispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	type Config = ();
	type Info = frame_support::dispatch::DispatchInfo;
	type PostInfo = frame_support::dispatch::PostDispatchInfo;
	fn dispatch(self, _o: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl frame_support::traits::UnfilteredDispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	fn dispatch_bypass_filter(self, _o: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl frame_support::dispatch::GetDispatchInfo for RtCall {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		Default::default()
	}
}
impl frame_system::offchain::SendTransactionTypes<Call<T>> for T {
	type Extrinsic = ();
	type OverarchingCall = RtCall;
}
prefix!(PBatch);
type BatchV = StorageValue<PBatch, u32, ValueQuery>;
konst! {
	Native: u32 = 1;
	Vtx: u32 = 3;
	VPot: PalletId = PalletId(*b"vtx/vpot");
	RPot: PalletId = PalletId(*b"vtx/rpot");
	FPot: PalletId = PalletId(*b"vtx/fpot");
	Interval: u32 = 7;
	Batch: u32 = BatchV::get();
	MaxPrices: u32 = 4;
	MaxRew: u32 = 4;
	MaxStr: u32 = 100;
	Depth: u32 = 10;
}
impl pallet_staking::Config for T {
	type CurrencyBalance = u128;
}
impl pallet_vortex_distribution::Config for T {
	type RuntimeEvent = ();
	type WeightInfo = ();
	type MultiCurrency = Ledger;
	type NativeAssetId = Native;
	type VtxAssetId = Vtx;
	type VtxDistPotId = VPot;
	type RootPotId = RPot;
	type TxFeePotId = FPot;
	type UnsignedInterval = Interval;
	type PayoutBatchSize = Batch;
	type VtxDistIdentifier = u32;
	type MaxAssetPrices = MaxPrices;
	type MaxRewards = MaxRew;
	type MaxStringLength = MaxStr;
	type HistoryDepth = Depth;
}
type V = Pallet<T>;
type O = <T as frame_system::Config>::RuntimeOrigin;
use VtxDistStatus::*;
const VTX: u32 = 3;
const CAP: u128 = 1 << 120;
fn pot(p: PalletId) -> Acc {
	p.into_account_truncating()
}
fn vault() -> Acc {
	pot(VPot::get())
}
fn amount() -> u128 {
	let x = sx::u128();
	sx::assume(x < CAP);
	x
}
/// 0: root, 1: the admin, 2: some other account, 3: unsigned
fn by(n: u64) -> O {
	match n {
		0 => frame_system::RawOrigin::Root.into(),
		1 => signed!(acc(7)),
		2 => signed!(acc(2)),
		_ => none(),
	}
}
fn none() -> O {
	frame_system::RawOrigin::None.into()
}
fn any_status() -> VtxDistStatus {
	match sx::choose(5) {
		0 => Disabled,
		1 => Enabled,
		2 => Triggered,
		3 => Paying,
		_ => Done,
	}
}
fn assets() {
	for a in [1, VTX, 10, 20] {
		Ledger::create(a, 1 << 125);
	}
	AdminAccount::<T>::put(acc(7));
}
fn bv<X, S: frame_support::traits::Get<u32>>(v: Vec<X>) -> BoundedVec<X, S> {
	BoundedVec::truncate_from(v)
}

/// A distribution from the registration of its rewards to the last payment, whatever the batches.
fn life(n: u64, batch: u32) {
	assets();
	BatchV::put(batch);
	set_block(sx::u32() % 1000);
	let id = 5u32;
	NextVortexId::<T>::put(id);
	sx::check(V::create_vtx_dist(by(sx::choose(2))).is_ok(), "the admin lists a distribution");
	sx::check(VtxDistStatuses::<T>::get(id) == Enabled && NextVortexId::<T>::get() == id + 1, "under a new id");
	// another distribution, also listed
	let other = amount();
	VtxDistStatuses::<T>::insert(9, Enabled);
	sx::check(V::register_rewards(by(0), 9, bv(vec![(acc(0), other)])).is_ok(), "registered");
	// rewards, possibly registered in two goes and naming an account again
	let who: Vec<u8> = (0..n).map(|_| sx::choose(n) as u8).collect();
	let am: Vec<u128> = (0..n).map(|_| amount()).collect();
	let split = sx::choose(n) as usize;
	let list: Vec<(Acc, u128)> = who.iter().zip(&am).map(|(w, x)| (acc(*w), *x)).collect();
	if split > 0 {
		sx::check(V::register_rewards(by(1), id, bv(list[..split].to_vec())).is_ok(), "registered");
	}
	sx::check(V::register_rewards(by(1), id, bv(list[split..].to_vec())).is_ok(), "registered");
	let due = |a: u8| (0..n as usize).rev().find(|i| who[*i] == a).map_or(0, |i| am[i]);
	let total: u128 = (0..n as u8).map(due).sum();
	let b0: Vec<u128> = (0..n as u8).map(|a| { let b = amount(); Ledger::set(VTX, &acc(a), b); b }).collect();
	let v0 = amount();
	Ledger::set(VTX, &vault(), v0);
	sx::check(V::trigger_vtx_distribution(by(1), id).is_ok(), "triggered");
	sx::check(with_layer(|| V::register_rewards(by(1), id, bv(vec![(acc(0), 1)]))).is_err(), "no reward is registered once it is triggered");
	sx::check(V::start_vtx_dist(by(1), id).is_ok(), "started");
	sx::check(Ledger::supply(VTX) == (1 << 125) + total && Ledger::bal(VTX, &vault()) == v0 + total, "exactly the rewards are minted");
	sx::check(with_layer(|| V::start_vtx_dist(by(1), id)).is_err() && with_layer(|| V::register_rewards(by(1), id, bv(vec![(acc(0), 1)]))).is_err(), "a distribution starts once");
	let mut rounds = 0;
	while VtxDistStatuses::<T>::get(id) == Paying && rounds < n + 2 {
		sx::check(V::pay_unsigned(none(), id, 0).is_ok(), "paid");
		rounds += 1;
		sx::check((0..n as u8).all(|a| { let b = Ledger::bal(VTX, &acc(a)); (b == b0[a as usize]) | (b == b0[a as usize] + due(a)) }), "an account gets its whole reward, and once");
	}
	sx::check(VtxDistStatuses::<T>::get(id) == Done, "the distribution is done");
	sx::check((0..n as u8).all(|a| Ledger::bal(VTX, &acc(a)) == b0[a as usize] + due(a)), "every reward is paid");
	sx::check(Ledger::bal(VTX, &vault()) == v0 && Ledger::supply(VTX) == (1 << 125) + total, "and nothing else");
	sx::check(V::pay_unsigned(none(), id, 0).is_ok() && (0..n as u8).all(|a| Ledger::bal(VTX, &acc(a)) == b0[a as usize] + due(a)), "nothing is paid afterwards");
	sx::check(VtxDistStatuses::<T>::get(9) == Enabled && TotalVortex::<T>::get(9) == other && VtxDistOrderbook::<T>::get(9, acc(0)) == (other, false), "other distributions are unaffected");
	sx::reach("paid");
	if rounds > 2 {
		sx::reach("in batches");
	}
}
#[no_mangle]
pub extern "C" fn h_life_2() {
	life(2, 0);
}
#[no_mangle]
pub extern "C" fn h_life_3() {
	life(3, 1);
}
#[no_mangle]
pub extern "C" fn h_life_3_one() {
	life(3, 0);
}
#[no_mangle]
pub extern "C" fn h_life_4() {
	life(4, 1);
}
/// One payment, two distributions being paid from the same vault.
#[no_mangle]
pub extern "C" fn h_pay() {
	assets();
	BatchV::put(sx::choose(3) as u32);
	let st = any_status();
	VtxDistStatuses::<T>::insert(5, st);
	VtxDistStatuses::<T>::insert(6, Paying);
	let mut sum = 0;
	let mut e = Vec::new();
	for i in 0..3u8 {
		let (x, paid) = (amount(), sx::bool());
		VtxDistOrderbook::<T>::insert(5, acc(i), (x, paid));
		let y = amount();
		VtxDistOrderbook::<T>::insert(6, acc(i), (y, false));
		let b = amount();
		Ledger::set(VTX, &acc(i), b);
		sum += x + y;
		e.push((x, y, paid, b));
	}
	Ledger::set(VTX, &vault(), sum);
	let now = sx::u32();
	sx::assume(now < 1000);
	set_block(now);
	let signed = sx::bool();
	let r = with_layer(|| V::pay_unsigned(if signed { signed!(acc(sx::choose(3) as u8)) } else { none() }, 5, now));
	sx::check(r.is_ok() == !signed, "payments are unsigned");
	let mut paid = 0;
	for i in 0..3u8 {
		let (x, y, p, b) = e[i as usize];
		let got = Ledger::bal(VTX, &acc(i)) != b;
		let (x1, p1) = VtxDistOrderbook::<T>::get(5, acc(i));
		sx::check(x1 == x && VtxDistOrderbook::<T>::get(6, acc(i)) == (y, false), "no reward changes");
		if st != Paying || signed {
			sx::check(!got && p1 == p, "only a started distribution is paid");
		} else {
			sx::check(!p || (!got && p1), "nobody is paid twice");
			sx::check(p1 == p || Ledger::bal(VTX, &acc(i)) == b + x, "who is marked paid got the reward");
			sx::check(p1 || !got, "who got the reward is marked paid");
		}
		paid += if p1 && !p { x } else { 0 };
	}
	sx::check(Ledger::bal(VTX, &vault()) == sum - paid && Ledger::supply(VTX) == 1 << 125, "out of the vault");
	sx::check(VtxDistStatuses::<T>::get(6) == Paying, "other distributions are unaffected");
	if !signed {
		sx::check(NextUnsignedAt::<T>::get() == now + 7, "the next payment is due after the interval");
		if st == Paying { sx::reach("paid") } else { sx::reach("none") }
	}
}
/// Who may do what, and when.
#[no_mangle]
pub extern "C" fn h_steps() {
	assets();
	let st = any_status();
	VtxDistStatuses::<T>::insert(5, st);
	VtxDistStatuses::<T>::insert(6, Paying);
	NextVortexId::<T>::put(sx::u32());
	let next = NextVortexId::<T>::get();
	sx::assume(next > 6);
	let tv = amount();
	TotalVortex::<T>::insert(5, tv);
	let v0 = amount();
	Ledger::set(VTX, &vault(), v0);
	let who = sx::choose(4);
	if sx::bool() {
		AdminAccount::<T>::kill();
	}
	let admin = who == 0 || (who == 1 && AdminAccount::<T>::get().is_some());
	let what = sx::choose(8);
	let (a, b) = (sx::u32(), sx::u32());
	let (x, y) = (amount(), amount());
	let as1 = if sx::bool() { VTX } else { 10 };
	let r = with_layer(|| match what {
		0 => V::create_vtx_dist(by(who)),
		1 => V::disable_vtx_dist(by(who), 5),
		2 => V::start_vtx_dist(by(who), 5),
		3 => V::trigger_vtx_distribution(by(who), 5).map(|_| ()).map_err(|e| e.error),
		4 => V::register_rewards(by(who), 5, bv(vec![(acc(1), x), (acc(2), y)])),
		5 => V::set_vtx_dist_eras(by(who), 5, a, b),
		6 => V::set_asset_prices(by(who), bv(vec![(20, x), (as1, y)]), 5).map(|_| ()).map_err(|e| e.error),
		_ => V::set_admin(by(who), acc(3)),
	});
	let can = match what {
		0 => admin && next < u32::MAX,
		1 => admin && st != Disabled,
		2 => admin && st == Triggered,
		3 => admin && st == Enabled,
		4 => admin && st == Enabled,
		5 => admin && a <= b,
		6 => admin && as1 != VTX,
		_ => who == 0,
	};
	sx::check(r.is_ok() == can, "only root or the admin, and in the right order");
	let want = match what {
		1 if can => Disabled,
		2 if can => Paying,
		3 if can => Triggered,
		_ => st,
	};
	sx::check(VtxDistStatuses::<T>::get(5) == want && VtxDistStatuses::<T>::get(6) == Paying, "the status moves on one step");
	let ok = |w: u64| can && what == w;
	sx::check(NextVortexId::<T>::get() == if ok(0) { next + 1 } else { next }, "a new id for a new distribution only");
	sx::check(!ok(0) || VtxDistStatuses::<T>::get(next) == Enabled, "the new distribution is enabled");
	sx::check(TotalVortex::<T>::get(5) == if ok(2) { 0 } else if ok(4) { tv + x + y } else { tv }, "the total is that of the rewards");
	sx::check(Ledger::supply(VTX) == (1 << 125) + if ok(2) { tv } else { 0 } && Ledger::bal(VTX, &vault()) == v0 + if ok(2) { tv } else { 0 }, "only starting mints, the total");
	sx::check((VtxDistOrderbook::<T>::get(5, acc(1)), VtxDistOrderbook::<T>::get(5, acc(2))) == if ok(4) { ((x, false), (y, false)) } else { ((0, false), (0, false)) }, "rewards are as registered");
	sx::check(VtxDistEras::<T>::get(5) == if ok(5) { (a, b) } else { (0, 0) }, "eras");
	sx::check(AssetPrices::<T>::iter_prefix(5).count() == if ok(6) { 2 } else { 0 }, "asset list");
	sx::check((AdminAccount::<T>::get() == Some(acc(3))) == ok(7), "root names the admin");
	if can { sx::reach("done") } else { sx::reach("refused") }
}
/// Pots are emptied into the vault when a distribution is triggered.
#[no_mangle]
pub extern "C" fn h_trigger() {
	assets();
	VtxDistStatuses::<T>::insert(5, Enabled);
	let all = [1u32, 10, 20];
	let l: Vec<bool> = all.iter().map(|a| { let b = sx::bool(); if b { AssetPrices::<T>::insert(5, *a, amount()) }; b }).collect();
	AssetPrices::<T>::insert(6, 20, 1);
	let (f, r, v): (Vec<u128>, Vec<u128>, Vec<u128>) = {
		let g = |p: PalletId| all.iter().map(|a| { let b = amount(); Ledger::set(*a, &pot(p), b); b }).collect::<Vec<_>>();
		(g(FPot::get()), g(RPot::get()), g(VPot::get()))
	};
	let fv = amount();
	Ledger::set(VTX, &pot(FPot::get()), fv);
	sx::check(V::trigger_vtx_distribution(by(0), 5).is_ok(), "triggered");
	for i in 0..3 {
		let a = all[i];
		let (df, dr) = (if l[i] { f[i] } else { 0 }, if a == 1 { r[i] } else { 0 });
		sx::check(Ledger::bal(a, &pot(FPot::get())) == f[i] - df, "the listed assets leave the fee pot");
		sx::check(Ledger::bal(a, &pot(RPot::get())) == r[i] - dr, "the native asset leaves the root pot");
		sx::check(Ledger::bal(a, &vault()) == v[i] + df + dr, "all of it arrives in the vault");
	}
	sx::check(Ledger::bal(VTX, &pot(FPot::get())) == fv, "nothing else moves");
	sx::reach("done");
}
/// Vortex is redeemed for its share of the vault.
fn redeem(n: usize) {
	assets();
	let st = any_status();
	VtxDistStatuses::<T>::insert(5, st);
	let sup = sx::u128();
	let x = sx::u128();
	let (b, bv) = (sx::u128(), sx::u128());
	sx::assume(b <= sup && bv <= sup - b);
	Ledger::create(VTX, sup);
	Ledger::set(VTX, &acc(0), b);
	let third = if sx::bool() { vault() } else { acc(1) };
	Ledger::set(VTX, &third, bv);
	let all = [10u32, 1, 20];
	let mut had = Vec::new();
	for a in all {
		let (v, w) = (sx::u128(), sx::u128());
		sx::assume(v <= u128::MAX - w);
		Ledger::set(a, &vault(), v);
		Ledger::set(a, &acc(0), w);
		had.push((v, w));
	}
	for a in &all[..n] {
		AssetPrices::<T>::insert(5, *a, sx::u128());
	}
	AssetPrices::<T>::insert(6, 20, 1);
	let r = with_layer(|| V::redeem_tokens_from_vault(signed!(acc(0)), 5, x));
	let can = st == Done && sup > 0 && x > 0 && x <= b;
	sx::check(r.is_ok() == can, "whoever holds that much vortex can redeem it once the distribution is done");
	sx::check(Ledger::bal(VTX, &acc(0)) == if can { b - x } else { b } && Ledger::supply(VTX) == if can { sup - x } else { sup } && Ledger::bal(VTX, &third) == bv, "exactly the vortex given in is burnt");
	for i in 0..3 {
		let (v, w) = had[i];
		let share = if can && i < n { (U256::from(x) * U256::from(v) / U256::from(sup)).as_u128() } else { 0 };
		sx::check(Ledger::bal(all[i], &acc(0)) == w + share && Ledger::bal(all[i], &vault()) == v - share, "its share of every listed asset is paid");
	}
	if can { sx::reach("redeemed") } else { sx::reach("refused") }
}
#[no_mangle]
pub extern "C" fn h_redeem_1() {
	redeem(1);
}
#[no_mangle]
pub extern "C" fn h_redeem_2() {
	redeem(2);
}
/// The node submits payments for the distributions being paid, and only such a call is accepted unsigned.
#[no_mangle]
pub extern "C" fn h_node() {
	assets();
	let s: Vec<VtxDistStatus> = (0..2u32).map(|i| { let s = any_status(); VtxDistStatuses::<T>::insert(i, s); s }).collect();
	let (now, next) = (sx::u32(), sx::u32());
	NextUnsignedAt::<T>::put(next);
	set_block(now);
	V::offchain_worker(now);
	let sub: Vec<&RtCall> = unsafe { (*core::ptr::addr_of!(frame_system::offchain::SUBMITTED)).iter().map(|p| &*(*p as *const RtCall)).collect() };
	let mut want = Vec::new();
	if sx::bool() || !sub.is_empty() {
		for (i, st) in s.iter().enumerate() {
			if *st == Paying {
				want.push(i as u32);
			}
		}
	}
	if !sub.is_empty() {
		sx::check(next <= now, "not before the next payment is due");
		sx::check(sub.len() == want.len(), "one payment for each distribution being paid");
		for (c, w) in sub.iter().zip(&want) {
			sx::check(matches!(&c.0, Some(Call::pay_unsigned { id, current_block }) if *id == *w && *current_block == now), "at this block");
		}
		sx::reach("submitted");
	}
	let b = sx::u32();
	use frame_support::unsigned::ValidateUnsigned;
	let src = sp_runtime::transaction_validity::TransactionSource::External;
	let v = V::validate_unsigned(src, &Call::pay_unsigned { id: 0, current_block: b });
	sx::check(v.is_ok() == (b <= now), "payments of this block or earlier are accepted");
	sx::check(V::validate_unsigned(src, &Call::start_vtx_dist { id: 0 }).is_err() && V::validate_unsigned(src, &Call::redeem_tokens_from_vault { id: 0, vortex_token_amount: 1 }).is_err() && V::validate_unsigned(src, &Call::create_vtx_dist {}).is_err(), "nothing else is");
	sx::reach("validated");
}
