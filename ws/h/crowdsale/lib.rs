#![allow(non_snake_case)]
use codec::Decode;
use frame_support::traits::{Get, Hooks};
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, own_call, prefix, signed, sys};
use pallet_crowdsale::types::*;
use pallet_crowdsale::*;
use seed_pallet_common::{utils::PublicMintInformation, *};
use seed_primitives::*;
use sp_core::U256;
use sp_runtime::{DispatchError, DispatchResult};

sys!(T, RtCall);
own_call!(T, RtCall, Call<T>);
prefix!(PIssued);
prefix!(PMax);
prefix!(POwner);
prefix!(PPublic);
prefix!(PMints);
prefix!(PPay);
prefix!(PConc);
prefix!(PAllow);
type Issued = StorageMap<PIssued, (), u32, u32, ValueQuery>;
type Max = StorageMap<PMax, (), u32, Option<u32>, OptionQuery>;
type Owner = StorageMap<POwner, (), u32, Acc, OptionQuery>;
type Public = StorageMap<PPublic, (), u32, bool, ValueQuery>;
type Mints = StorageValue<PMints, Vec<(u32, u32, Acc)>, ValueQuery>;
type PayV = StorageValue<PPay, u32, ValueQuery>;
type ConcV = StorageValue<PConc, u32, ValueQuery>;
type Allow = StorageValue<PAllow, u8, ValueQuery>;
const MINT_LIMIT: u32 = 1000;
/// The NFT pallet: who owns a collection, how many tokens it has and may have.
pub struct Nfts;
impl NFTExt for Nfts {
	type AccountId = Acc;
	type StringLimit = SLimit;
	fn do_mint(o: Acc, c: u32, q: u32, to: Option<Acc>) -> DispatchResult {
		let i = Issued::get(c);
		if Owner::get(c) != Some(o) || q > MINT_LIMIT || i.checked_add(q).map_or(true, |n| Max::get(c).unwrap().map_or(false, |m| n > m)) {
			return Err(DispatchError::Other("mint"));
		}
		Issued::insert(c, i + q);
		Mints::mutate(|v| v.push((c, q, to.unwrap_or(o))));
		Ok(())
	}
	fn do_transfer(_o: &Acc, _c: u32, _s: Vec<u32>, _n: &Acc) -> DispatchResult {
		unimplemented!()
	}
	fn do_burn(_w: Acc, _c: u32, _s: u32) -> DispatchResult {
		unimplemented!()
	}
	fn do_create_collection(_o: Acc, _n: BoundedVec<u8, SLimit>, _i: u32, _m: Option<u32>, _t: Option<Acc>, _s: MetadataScheme, _r: Option<RoyaltiesSchedule<Acc>>, _oc: OriginChain, _cc: CrossChainCompatibility) -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn get_token_owner(_t: &TokenId) -> Option<Acc> {
		None
	}
	fn get_collection_issuance(c: u32) -> Result<(u32, Option<u32>), DispatchError> {
		match Max::get(c) {
			Some(m) => Ok((Issued::get(c), m)),
			None => Err(DispatchError::Other("no collection")),
		}
	}
	fn get_public_mint_info(c: u32) -> Result<PublicMintInformation, DispatchError> {
		if Public::contains_key(c) {
			Ok(PublicMintInformation { enabled: Public::get(c), pricing_details: None })
		} else {
			Err(DispatchError::Other("no info"))
		}
	}
	fn transfer_collection_ownership(w: Acc, c: u32, n: Acc) -> DispatchResult {
		if Owner::get(c) != Some(w) {
			return Err(DispatchError::Other("not the owner"));
		}
		Owner::insert(c, n);
		Ok(())
	}
	fn get_royalties_schedule(_c: u32) -> Result<Option<RoyaltiesSchedule<Acc>>, DispatchError> {
		Ok(None)
	}
	fn enable_xls20_compatibility(_w: Acc, _c: u32) -> DispatchResult {
		unimplemented!()
	}
	fn next_collection_uuid() -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn increment_collection_uuid() -> DispatchResult {
		unimplemented!()
	}
	fn get_token_lock(_t: TokenId) -> Option<TokenLockReason> {
		None
	}
	fn set_token_lock(_t: TokenId, _l: TokenLockReason, _w: Acc) -> DispatchResult {
		unimplemented!()
	}
	fn remove_token_lock(_t: TokenId) {}
	fn get_collection_owner(c: u32) -> Result<Acc, DispatchError> {
		Owner::get(c).ok_or(DispatchError::Other("no collection"))
	}
	fn get_cross_chain_compatibility(_c: u32) -> Result<CrossChainCompatibility, DispatchError> {
		unimplemented!()
	}
}
pub struct Checker;
impl ExtrinsicChecker for Checker {
	type Call = RtCall;
	type Extra = ();
	type Result = DispatchResult;
	fn check_extrinsic(c: &RtCall, _e: &()) -> DispatchResult {
		if c.1 == Allow::get() {
			Ok(())
		} else {
			Err(DispatchError::Other("forbidden"))
		}
	}
}
konst! {
	SLimit: u32 = 50;
	Pid: PalletId = PalletId(*b"crowdsal");
	PerBlock: u32 = 2;
	Conc: u32 = ConcV::get();
	Pay: u32 = PayV::get();
	MaxDur: u32 = 1000;
	Interval: u32 = 4;
}
impl pallet_crowdsale::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type PalletId = Pid;
	type StringLimit = SLimit;
	type ProxyCallValidator = Checker;
	type MultiCurrency = Ledger;
	type NFTExt = Nfts;
	type MaxSalesPerBlock = PerBlock;
	type MaxConsecutiveSales = Conc;
	type MaxPaymentsPerBlock = Pay;
	type MaxSaleDuration = MaxDur;
	type UnsignedInterval = Interval;
	type WeightInfo = ();
}
type C = Pallet<T>;
type Info = SaleInformation<Acc, u32>;
const M: u128 = 1_000_000;
const CAP: u128 = 1 << 100;
const PAYA: u32 = 10;
const VOU: u32 = 20;
fn admin() -> Acc {
	acc(7)
}
fn vault() -> Acc {
	acc(6)
}
fn none() -> <T as frame_system::Config>::RuntimeOrigin {
	frame_system::RawOrigin::None.into()
}
fn amount() -> u128 {
	let x = sx::u128();
	sx::assume(x < CAP);
	x
}
fn info(status: SaleStatus<u32>, price: u128, raised: u128, n: u64) -> Info {
	Info {
		status,
		admin: admin(),
		vault: vault(),
		payment_asset_id: PAYA,
		reward_collection_id: 3,
		soft_cap_price: price,
		funds_raised: raised,
		participant_count: n,
		voucher_asset_id: VOU,
		duration: 5,
	}
}
fn any_status() -> SaleStatus<u32> {
	match sx::choose(5) {
		0 => SaleStatus::Pending(1),
		1 => SaleStatus::Enabled(1),
		2 => SaleStatus::Distributing(1, 0),
		3 => SaleStatus::Ended(1),
		_ => SaleStatus::DistributionFailed(1),
	}
}
fn base() {
	for a in [PAYA, VOU, 30] {
		Ledger::create(a, 1 << 125);
	}
	ConcV::put(3);
	PayV::put(2);
	set_block(1);
}
/// max * 10^6 / ...: what a contribution is worth
fn share(c: u128, price: u128, raised: u128, max: u32) -> u128 {
	let n = U256::from(c) * U256::from(M);
	if raised > price.saturating_mul(max as u128) {
		(n * U256::from(max as u128) / U256::from(raised)).as_u128()
	} else {
		(n / U256::from(price)).as_u128()
	}
}

fn name() -> Option<BoundedVec<u8, SLimit>> {
	Some(BoundedVec::truncate_from(sx::vec(3)))
}
#[no_mangle]
pub extern "C" fn h_open() {
	base();
	let id = sx::u64();
	NextSaleId::<T>::put(id);
	Next::put(500);
	let owner = sx::bool();
	let (issued, max) = (sx::u32(), if sx::bool() { Some(sx::u32()) } else { None });
	let exists = sx::bool();
	if exists {
		Max::insert(3, max);
		Issued::insert(3, issued);
		Owner::insert(3, if owner { admin() } else { acc(1) });
	}
	let public = sx::choose(3);
	if public > 0 {
		Public::insert(3, public == 2);
	}
	let pay = if sx::bool() { PAYA } else { 99 };
	let (price, dur) = (sx::u128(), sx::u32());
	let r = with_layer(|| C::initialize(signed!(admin()), pay, 3, price, dur, name(), name()));
	let can = exists && owner && issued == 0 && max.is_some() && public != 2 && pay == PAYA && price > 0 && dur > 0 && dur <= 1000 && id < u64::MAX;
	sx::check(r.is_ok() == can, "a sale needs an unminted capped private collection of its own, a price, a payment asset and a duration");
	if !can {
		sx::check(SaleInfo::<T>::get(id).is_none() && NextSaleId::<T>::get() == id, "a refused sale leaves nothing");
		sx::check(!exists || Owner::get(3) == Some(if owner { admin() } else { acc(1) }), "nor takes the collection");
		sx::reach("refused");
		return;
	}
	let i = SaleInfo::<T>::get(id).unwrap();
	let m = max.unwrap() as u128;
	sx::check(NextSaleId::<T>::get() == id + 1, "the id is used up");
	sx::check(i.status == SaleStatus::Pending(1) && i.admin == admin() && i.payment_asset_id == pay && i.reward_collection_id == 3 && i.soft_cap_price == price && i.duration == dur && i.funds_raised == 0 && i.participant_count == 0, "the sale is as asked");
	sx::check(Owner::get(3) == Some(i.vault), "the vault owns the collection");
	sx::check(i.voucher_asset_id == 500 && Ledger::supply(500) == m * M && Ledger::bal(500, &i.vault) == m * M, "one voucher for each token of the collection is kept in the vault");
	// another sale has another vault
	let id2 = sx::u64();
	sx::assume(id2 != id && id2 < u64::MAX);
	NextSaleId::<T>::put(id2);
	Max::insert(4, max);
	Owner::insert(4, admin());
	sx::check(C::initialize(signed!(admin()), pay, 4, price, dur, name(), name()).is_ok(), "another sale");
	sx::check(SaleInfo::<T>::get(id2).unwrap().vault != i.vault && SaleInfo::<T>::get(id) == Some(i), "has its own vault and leaves the first alone");
	sx::reach("opened");
}
#[no_mangle]
pub extern "C" fn h_enable() {
	base();
	let st = any_status();
	let mut i = info(st, 5, 0, 0);
	i.duration = sx::u32();
	sx::assume(i.duration <= 1000 && i.duration > 0);
	let exists = sx::bool();
	if exists {
		SaleInfo::<T>::insert(2, i);
	}
	let now = sx::u32();
	sx::assume(now < u32::MAX - 2000);
	set_block(now);
	let q = sx::choose(3) as usize;
	let queue: Vec<u64> = (0..q as u64).map(|k| 10 + k).collect();
	if q > 0 {
		SaleEndBlocks::<T>::insert(now + i.duration, BoundedVec::truncate_from(queue.clone()));
	}
	let who = any_acc();
	let r = with_layer(|| C::enable(signed!(who), 2));
	let can = exists && matches!(st, SaleStatus::Pending(_)) && who == admin() && q < 2;
	sx::check(r.is_ok() == can, "only the admin enables a pending sale");
	let mut want = queue;
	if can {
		want.push(2);
	}
	sx::check(SaleEndBlocks::<T>::get(now + i.duration).map_or(vec![], |v| v.into_inner()) == want, "it ends after its duration");
	if exists {
		i.status = if can { SaleStatus::Enabled(now) } else { st };
		sx::check(SaleInfo::<T>::get(2) == Some(i), "nothing else changes");
	}
	if can {
		sx::reach("enabled")
	} else {
		sx::reach("refused")
	}
}
#[no_mangle]
pub extern "C" fn h_join() {
	base();
	let st = any_status();
	let raised = amount();
	let i = info(st, 5, raised, 3);
	SaleInfo::<T>::insert(2, i);
	let other = info(SaleStatus::Enabled(1), 5, 7, 3);
	SaleInfo::<T>::insert(4, other);
	let before = if sx::bool() { Some(amount()) } else { None };
	if let Some(b) = before {
		SaleParticipation::<T>::insert(2, acc(0), b);
	}
	SaleParticipation::<T>::insert(2, acc(1), 9);
	SaleParticipation::<T>::insert(4, acc(0), 9);
	let (b, v, x) = (amount(), amount(), sx::u128());
	Ledger::set(PAYA, &acc(0), b);
	Ledger::set(PAYA, &vault(), v);
	let r = with_layer(|| C::participate(signed!(acc(0)), 2, x));
	let can = x > 0 && x <= b && matches!(st, SaleStatus::Enabled(_));
	sx::check(r.is_ok() == can, "whoever can pay joins an enabled sale");
	let d = if can { x } else { 0 };
	sx::check(Ledger::bal(PAYA, &acc(0)) == b - d && Ledger::bal(PAYA, &vault()) == v + d, "the payment goes to the vault");
	let mut j = i;
	j.funds_raised = raised + d;
	j.participant_count = 3 + (can && before.is_none()) as u64;
	sx::check(SaleInfo::<T>::get(2) == Some(j), "the funds raised are the payments");
	let want = if can { Some(before.unwrap_or(0) + x) } else { before };
	sx::check(SaleParticipation::<T>::get(2, acc(0)) == want, "and what the participant gave is remembered");
	sx::check(SaleParticipation::<T>::get(2, acc(1)) == Some(9) && SaleParticipation::<T>::get(4, acc(0)) == Some(9) && SaleInfo::<T>::get(4) == Some(other), "others are unaffected");
	if can {
		sx::reach("joined")
	} else {
		sx::reach("refused")
	}
}
/// Sales end in their block.
#[no_mangle]
pub extern "C" fn h_close() {
	base();
	let conc = sx::choose(3) as u32;
	ConcV::put(2);
	SaleDistribution::<T>::put(BoundedVec::truncate_from((0..conc as u64).map(|k| 50 + k).collect::<Vec<_>>()));
	let now = sx::u32();
	sx::assume(now > 0);
	set_block(now);
	let n = 2u64;
	let mut st = Vec::new();
	for k in 0..n {
		let (price, raised, max) = (amount(), amount(), sx::u32());
		sx::assume(price > 0);
		let mut i = info(SaleStatus::Enabled(1), price, raised, 1);
		i.vault = acc(10 + k as u8);
		i.voucher_asset_id = 200 + k as u32;
		i.reward_collection_id = 3 + k as u32;
		Ledger::create(i.voucher_asset_id, max as u128 * M);
		Ledger::set(i.voucher_asset_id, &i.vault, max as u128 * M);
		Ledger::set(PAYA, &i.vault, raised);
		Max::insert(i.reward_collection_id, Some(max));
		Owner::insert(i.reward_collection_id, i.vault);
		SaleInfo::<T>::insert(k, i);
		st.push((i, max));
	}
	let due = sx::choose(3);
	let at = sx::u32();
	if due > 0 {
		SaleEndBlocks::<T>::insert(at, BoundedVec::truncate_from((0..due).collect::<Vec<_>>()));
	}
	let b = amount();
	Ledger::set(PAYA, &admin(), b);
	C::on_initialize(now);
	let mut closed = 0;
	let mut paid = 0;
	for k in 0..n {
		let (i, max) = &st[k as usize];
		let j = SaleInfo::<T>::get(k).unwrap();
		let is_due = at == now && k < due;
		let (vp, vv) = (Ledger::bal(PAYA, &i.vault), Ledger::bal(i.voucher_asset_id, &i.vault));
		if !is_due {
			sx::check(j == *i && vp == i.funds_raised && vv == *max as u128 * M, "no sale ends in another block");
			continue;
		}
		paid += i.funds_raised;
		sx::check(vp == 0, "the admin gets all the funds raised");
		let target = U256::from(i.soft_cap_price) * U256::from(*max as u128);
		let all = *max as u128 * M;
		let keep = if U256::from(i.funds_raised) < target { U256::from(i.funds_raised) * U256::from(M) / U256::from(i.soft_cap_price) } else { U256::from(all) };
		sx::check(U256::from(vv) == keep, "the vouchers the funds do not pay for go back to the admin");
		sx::check(Ledger::bal(i.voucher_asset_id, &admin()) == all - vv, "and no other");
		let mut want = *i;
		want.status = if i.funds_raised == 0 {
			SaleStatus::Ended(now)
		} else if conc + closed < 2 {
			closed += 1;
			SaleStatus::Distributing(now, 0)
		} else {
			SaleStatus::DistributionFailed(now)
		};
		sx::check(j == want, "the vouchers are distributed next");
		sx::check(SaleDistribution::<T>::get().contains(&k) == matches!(want.status, SaleStatus::Distributing(..)), "in the queue");
		sx::reach("closed");
	}
	sx::check(Ledger::bal(PAYA, &admin()) == b + paid, "payments reach the admin");
	sx::check(SaleDistribution::<T>::get().len() as u32 == conc + closed && (0..conc as usize).all(|x| SaleDistribution::<T>::get()[x] == 50 + x as u64), "sales already in the queue stay there");
	sx::check(at != now || SaleEndBlocks::<T>::get(now).is_none(), "a block is closed once");
	if at != now {
		sx::reach("none due");
	}
}
/// One round of distribution, or a claim, on a sale with n participants.
fn round(n: u64, claim: bool) {
	base();
	let per = 1 + sx::choose(n) as u32;
	PayV::put(per);
	let st = if sx::bool() { SaleStatus::Distributing(1, 77) } else { any_status() };
	let (price, raised, max) = (amount(), amount(), sx::u32());
	sx::assume(price > 0 && raised > 0);
	let i = info(st, price, raised, n);
	SaleInfo::<T>::insert(2, i);
	let first = sx::bool();
	SaleDistribution::<T>::put(BoundedVec::truncate_from(if first { vec![2u64, 4] } else { vec![4, 2] }));
	SaleInfo::<T>::insert(4, info(SaleStatus::Ended(1), 1, 1, 1));
	Max::insert(3, Some(max));
	let vb = amount();
	Ledger::set(VOU, &vault(), vb);
	let mut c = Vec::new();
	for k in 0..n {
		let (x, y) = (amount(), amount());
		sx::assume(x > 0);
		SaleParticipation::<T>::insert(2, acc(k as u8), x);
		SaleParticipation::<T>::insert(4, acc(k as u8), 5);
		Ledger::set(VOU, &acc(k as u8), y);
		c.push((x, y));
	}
	let ab = amount();
	Ledger::set(VOU, &admin(), ab);
	let (now, is_none) = (sx::u32(), sx::bool());
	sx::assume(now < u32::MAX - 10);
	set_block(now);
	let me = sx::choose(n + 1);
	let r = with_layer(|| if claim { C::claim_voucher(signed!(acc(me as u8)), 2) } else { C::distribute_crowdsale_rewards(if is_none { none() } else { signed!(acc(0)) }) });
	let dist = matches!(st, SaleStatus::Distributing(..));
	let can = if claim { dist && me < n } else { is_none && first && dist };
	sx::check(r.is_ok() == can, "vouchers are handed out while the sale is in distribution");
	let mut left = vb;
	let mut given = 0;
	let mut open = 0;
	for k in 0..n {
		let (x, y) = c[k as usize];
		let turn = can && if claim { k == me } else { (k as u32) < per };
		let s = if turn { share(x, price, raised, max) } else { 0 };
		let got = s.min(left);
		left -= got;
		given += s;
		sx::check(Ledger::bal(VOU, &acc(k as u8)) == y + got, "a participant gets its share of the vouchers, as far as the vault reaches");
		sx::check(SaleParticipation::<T>::get(2, acc(k as u8)) == if turn { None } else { Some(x) }, "once");
		sx::check(SaleParticipation::<T>::get(4, acc(k as u8)) == Some(5), "other sales are unaffected");
		open += !turn as u64;
	}
	let over = can && open == 0;
	sx::check(Ledger::bal(VOU, &vault()) == if over { 0 } else { left } && Ledger::bal(VOU, &admin()) == ab + if over { left } else { 0 }, "what is left in the end is the admin's");
	let mut want = i;
	if over {
		want.status = SaleStatus::Ended(now);
		sx::reach("over");
	} else if can {
		want.status = SaleStatus::Distributing(now, if let SaleStatus::Distributing(_, d) = st { d + given } else { 0 });
		sx::reach("part");
	} else {
		sx::reach("refused");
	}
	sx::check(SaleInfo::<T>::get(2) == Some(want), "the sale ends with the last participant");
	let q = SaleDistribution::<T>::get().into_inner();
	sx::check(q == if over { vec![4] } else if first { vec![2, 4] } else { vec![4, 2] }, "and leaves the queue then");
}
#[no_mangle]
pub extern "C" fn h_distribute_1() {
	round(1, false);
}
#[no_mangle]
pub extern "C" fn h_distribute_2() {
	round(2, false);
}
#[no_mangle]
pub extern "C" fn h_distribute_3() {
	round(3, false);
}
#[no_mangle]
pub extern "C" fn h_claim_1() {
	round(1, true);
}
#[no_mangle]
pub extern "C" fn h_claim_2() {
	round(2, true);
}
#[no_mangle]
pub extern "C" fn h_redeem() {
	base();
	let st = any_status();
	let i = info(st, 5, 9, 1);
	SaleInfo::<T>::insert(2, i);
	let (issued, max) = (sx::u32(), sx::u32());
	Issued::insert(3, issued);
	Max::insert(3, Some(max));
	Owner::insert(3, vault());
	let (b, q) = (amount(), sx::u32());
	Ledger::set(VOU, &acc(0), b);
	let r = with_layer(|| C::redeem_voucher(signed!(acc(0)), 2, q));
	let can = q > 0 && q <= MINT_LIMIT && matches!(st, SaleStatus::Distributing(..) | SaleStatus::Ended(_)) && q as u128 * M <= b && issued as u64 + q as u64 <= max as u64;
	sx::check(r.is_ok() == can, "vouchers buy tokens once the sale is over");
	sx::check(Ledger::bal(VOU, &acc(0)) == b - if can { q as u128 * M } else { 0 } && Ledger::supply(VOU) == (1 << 125) - if can { q as u128 * M } else { 0 }, "one voucher is burnt for each token");
	sx::check(Mints::get() == if can { vec![(3, q, acc(0))] } else { vec![] }, "and the tokens minted to its holder");
	sx::check(SaleInfo::<T>::get(2) == Some(i), "the sale stays as it is");
	if can {
		sx::reach("redeemed")
	} else {
		sx::reach("refused")
	}
}
#[no_mangle]
pub extern "C" fn h_force() {
	base();
	let n = sx::choose(4);
	SaleDistribution::<T>::put(BoundedVec::truncate_from((0..n).map(|k| 50 + k).collect::<Vec<_>>()));
	let st = any_status();
	let raised = sx::u128();
	sx::assume(raised > 0);
	let mut i = info(st, 5, raised, 1);
	SaleInfo::<T>::insert(2, i);
	let now = sx::u32();
	set_block(now);
	let r = with_layer(|| C::try_force_distribution(signed!(any_acc()), 2));
	let can = matches!(st, SaleStatus::DistributionFailed(_)) && n < 3;
	sx::check(r.is_ok() == can, "anyone restarts a distribution that found the queue full");
	if can {
		i.status = SaleStatus::Distributing(now, 0);
	}
	sx::check(SaleInfo::<T>::get(2) == Some(i) && SaleDistribution::<T>::get().len() as u64 == n + can as u64 && SaleDistribution::<T>::get().contains(&2) == can, "it joins the queue");
	if can {
		sx::reach("restarted")
	} else {
		sx::reach("refused")
	}
}
#[no_mangle]
pub extern "C" fn h_proxy() {
	base();
	let i = info(any_status(), 5, 9, 1);
	SaleInfo::<T>::insert(2, i);
	let (allow, call) = (sx::u8(), sx::u8());
	Allow::put(allow);
	let who = any_acc();
	let id = if sx::bool() { 2 } else { 3 };
	DispatchFail::put(sx::bool());
	let r = with_layer(|| C::proxy_vault_call(signed!(who), id, Box::new(RtCall(None, call))));
	let can = who == admin() && id == 2 && allow == call;
	sx::check(r.is_ok() == (can && !DispatchFail::get()), "the admin makes permitted calls as the vault");
	let d = Dispatched::get();
	sx::check(d.len() == r.is_ok() as usize && d.iter().all(|x| x.0 == Some(vault()) && x.1 == call), "and nothing else is called as the vault");
	sx::check(SaleInfo::<T>::get(2) == Some(i), "the sale stays as it is");
	if can {
		sx::reach("called")
	} else {
		sx::reach("refused")
	}
}
/// From the last payment to the last voucher: nobody goes short.
fn life(n: u64, price: u128) {
	base();
	PayV::put(1);
	let max = sx::u32();
	sx::assume(max > 0);
	let c: Vec<u128> = (0..n).map(|k| { let x = amount(); sx::assume(x > 0 && x < CAP / 4); SaleParticipation::<T>::insert(2, acc(k as u8), x); x }).collect();
	let raised: u128 = c.iter().sum();
	SaleInfo::<T>::insert(2, info(SaleStatus::Enabled(1), price, raised, n));
	Max::insert(3, Some(max));
	Owner::insert(3, vault());
	let all = max as u128 * M;
	Ledger::create(VOU, all);
	Ledger::set(VOU, &vault(), all);
	Ledger::set(PAYA, &vault(), raised);
	SaleEndBlocks::<T>::insert(9, BoundedVec::truncate_from(vec![2]));
	C::on_initialize(9);
	sx::check(matches!(SaleInfo::<T>::get(2).unwrap().status, SaleStatus::Distributing(..)), "the sale ends");
	let mut left = c.len();
	if sx::bool() {
		sx::check(C::claim_voucher(signed!(acc(n as u8 - 1)), 2).is_ok(), "a participant claims its vouchers");
		sx::check(with_layer(|| C::claim_voucher(signed!(acc(n as u8 - 1)), 2)).is_err(), "once");
		left -= 1;
	}
	for _ in 0..left {
		sx::check(C::distribute_crowdsale_rewards(none()).is_ok(), "the others get theirs");
	}
	sx::check(matches!(SaleInfo::<T>::get(2).unwrap().status, SaleStatus::Ended(..)), "until the sale is over");
	for k in 0..n {
		sx::check(Ledger::bal(VOU, &acc(k as u8)) == share(c[k as usize], price, raised, max), "each participant gets its full share");
	}
	let sum: u128 = (0..n).map(|k| Ledger::bal(VOU, &acc(k as u8))).sum();
	sx::check(Ledger::bal(VOU, &admin()) == all - sum && Ledger::bal(VOU, &vault()) == 0 && Ledger::bal(PAYA, &admin()) == raised, "the admin the funds and the rest");
	sx::reach("over");
	if raised > price * max as u128 {
		sx::reach("oversubscribed");
	}
}
#[no_mangle]
pub extern "C" fn h_life_1() {
	let price = amount();
	sx::assume(price > 0);
	life(1, price);
}
#[no_mangle]
pub extern "C" fn h_life_2() {
	let price = amount();
	sx::assume(price > 0);
	life(2, price);
}
#[no_mangle]
pub extern "C" fn h_node() {
	base();
	let n = sx::choose(2);
	SaleDistribution::<T>::put(BoundedVec::truncate_from((0..n).collect::<Vec<_>>()));
	let (now, next) = (sx::u32(), sx::u32());
	NextUnsignedAt::<T>::put(next);
	set_block(now);
	C::offchain_worker(now);
	let s = submitted();
	sx::check(s.len() == (n > 0 && next <= now) as usize && s.iter().all(|c| matches!(c.0, Some(Call::distribute_crowdsale_rewards {}))), "the node asks for the next round when it is due");
	use frame_support::unsigned::ValidateUnsigned;
	let src = sp_runtime::transaction_validity::TransactionSource::External;
	sx::check(C::validate_unsigned(src, &Call::distribute_crowdsale_rewards {}).is_ok() == (n > 0), "a round is accepted while there is something to distribute");
	sx::check(C::validate_unsigned(src, &Call::claim_voucher { sale_id: 0 }).is_err() && C::validate_unsigned(src, &Call::redeem_voucher { sale_id: 0, quantity: 1 }).is_err() && C::validate_unsigned(src, &Call::try_force_distribution { sale_id: 0 }).is_err(), "nothing else is accepted unsigned");
	sx::reach("done");
}
