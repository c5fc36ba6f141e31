#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_nft::*;
use seed_pallet_common::utils::{CollectionUtilityFlags, PublicMintInformation};
use seed_pallet_common::{NFTExt, NFTMinter};
use seed_primitives::*;

sys!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
}
impl Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
type Info = CollectionInformation<Acc, MaxTok, StrLim>;
const COL: u32 = (7 << 10) | 100;

fn bv<X: Clone>(v: &[X]) -> BoundedVec<X, MaxTok> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn info() -> Option<Info> {
	CollectionInfo::<T>::get(COL)
}
fn owner_of(s: u32) -> Option<Acc> {
	Pallet::<T>::get_token_owner(&(COL, s))
}
fn count(w: &Acc) -> u32 {
	Pallet::<T>::token_balance_of(w, COL)
}
fn flags() -> CollectionUtilityFlags {
	CollectionUtilityFlags { transferable: sx::bool(), burnable: sx::bool(), mintable: sx::bool() }
}
/// Every serial is held once, issuance counts them, serials of native collections lie below the next serial.
fn wf(i: &Info) -> bool {
	let mut all: Vec<u32> = vec![];
	let mut ok = true;
	for (k, o) in i.owned_tokens.iter().enumerate() {
		all.extend(o.owned_serials.iter());
		for p in i.owned_tokens.iter().skip(k + 1) {
			ok &= o.owner != p.owner;
		}
	}
	for a in 0..all.len() {
		for b in a + 1..all.len() {
			ok &= all[a] != all[b];
		}
		if i.origin_chain == OriginChain::Root {
			ok &= all[a] < i.next_serial_number;
		}
	}
	ok &= all.len() as u32 == i.collection_issuance;
	if i.origin_chain == OriginChain::Root {
		ok &= i.collection_issuance <= i.next_serial_number;
	}
	if let Some(m) = i.max_issuance {
		ok &= i.collection_issuance <= m;
	}
	ok
}
/// A collection whose tokens belong to accounts 0 and 1 (n0 and n1 of them), with arbitrary serials.
fn collection(n0: usize, n1: usize, owner: Acc) -> Info {
	let mut owned = vec![];
	for (k, n) in [n0, n1].into_iter().enumerate() {
		if n > 0 {
			let mut v: Vec<u32> = vec![];
			for j in 0..n {
				let s = sx::u32();
				if j > 0 {
					sx::assume(v[j - 1] < s);
				}
				v.push(s);
			}
			owned.push(TokenOwnership { owner: acc(k as u8), owned_serials: bv(&v) });
		}
	}
	let bridged = sx::bool();
	let i = Info {
		owner,
		name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(),
		metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
		royalties_schedule: None,
		max_issuance: if sx::bool() { Some(sx::u32()) } else { None },
		origin_chain: if bridged { OriginChain::Ethereum } else { OriginChain::Root },
		next_serial_number: sx::u32(),
		collection_issuance: (n0 + n1) as u32,
		cross_chain_compatibility: CrossChainCompatibility { xrpl: sx::bool() },
		owned_tokens: bv(&owned),
	};
	sx::assume(wf(&i));
	CollectionInfo::<T>::insert(COL, i.clone());
	i
}
fn lock_any() {
	if sx::bool() {
		TokenLocks::<T>::insert((COL, sx::u32()), TokenLockReason::Listed(sx::u128()));
	}
}

/// Transfer: only the owner moves unlocked tokens, and ownership stays single-valued.
fn transfer(n0: usize, n1: usize, k: usize) {
	let pre = collection(n0, n1, acc(5));
	lock_any();
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let who = pick_acc(3);
	let to = pick_acc(3);
	let mut list = vec![];
	for _ in 0..k {
		list.push(sx::u32());
	}
	let q = sx::u32();
	let before = owner_of(q);
	let r = with_layer(|| Pallet::<T>::transfer(signed!(who), COL, bv(&list), to));
	let post = info().unwrap();
	let mut hit = false;
	for s in &list {
		hit |= *s == q;
	}
	if r.is_ok() {
		sx::reach("ok");
		sx::check(wf(&post), "no serial is held twice and issuance counts the tokens");
		if hit {
			sx::check(before == Some(who), "only tokens of the caller move");
			sx::check(owner_of(q) == Some(to), "moved tokens belong to the new owner");
			sx::check(!TokenLocks::<T>::contains_key((COL, q)), "locked tokens do not move");
			sx::check(Moves::get().contains(&(COL, q)), "the approvals are told about a moved token");
		} else {
			sx::check(owner_of(q) == before, "other tokens keep their owner");
		}
		sx::check(UtilityFlags::<T>::get(COL).transferable, "transfers can be switched off");
		sx::check(post.collection_issuance == pre.collection_issuance && post.next_serial_number == pre.next_serial_number, "transfers do not mint or burn");
	} else {
		sx::reach("err");
		sx::check(owner_of(q) == before, "a failed transfer moves nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_transfer_10() {
	transfer(1, 0, 1)
}
#[no_mangle]
pub extern "C" fn h_transfer_21() {
	transfer(2, 1, 2)
}
#[no_mangle]
pub extern "C" fn h_transfer_22() {
	transfer(2, 2, 1)
}
#[no_mangle]
pub extern "C" fn h_transfer_deep() {
	transfer(3, 1, 3)
}

/// Minting: caps, fees, fresh serials, ownership.
fn mint(n0: usize, n1: usize) {
	let pre = collection(n0, n1, acc(5));
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let price = sx::u128();
	let public = sx::bool();
	let priced = sx::bool();
	if sx::bool() {
		PublicMintInfo::<T>::insert(COL, PublicMintInformation { enabled: public, pricing_details: if priced { Some((3, price)) } else { None } });
	}
	let pmi = PublicMintInfo::<T>::get(COL).unwrap_or_default();
	let who = if sx::bool() { acc(5) } else { acc(1) };
	let to = if sx::bool() { Some(pick_acc(3)) } else { None };
	let rcpt = to.unwrap_or(who);
	Ledger::create(3, sx::u128());
	let (f0, o0) = (sx::u128(), sx::u128());
	Ledger::set(3, &acc(1), f0);
	Ledger::set(3, &acc(5), o0);
	let n = sx::u32();
	let q = sx::u32();
	let before = owner_of(q);
	let cnt = count(&rcpt);
	let r = with_layer(|| Pallet::<T>::mint(signed!(who), COL, n, to));
	let post = info().unwrap();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(wf(&post), "no serial is held twice and issuance counts the tokens");
		sx::check(n > 0 && n <= MintLim::get(), "mint size limit");
		sx::check(post.collection_issuance == pre.collection_issuance + n && post.collection_issuance < MaxTok::get(), "issuance grows by the quantity, below the collection limit");
		sx::check(pre.max_issuance.map_or(true, |m| post.next_serial_number <= m), "maximum issuance is never exceeded");
		sx::check(pre.origin_chain == OriginChain::Root, "bridged collections are not minted natively");
		sx::check(UtilityFlags::<T>::get(COL).mintable, "minting can be switched off");
		sx::check(who == acc(5) || pmi.enabled, "only the owner mints unless public mint is on");
		sx::check(post.next_serial_number == pre.next_serial_number + n, "serials are never handed out again");
		let minted = q >= pre.next_serial_number && q < post.next_serial_number;
		sx::check(owner_of(q) == if minted { Some(rcpt) } else { before }, "exactly the new serials go to the recipient");
		sx::check(count(&rcpt) == cnt + n, "the recipient's balance grows by the quantity");
		let fee = if who == acc(1) && pmi.enabled && pmi.pricing_details.is_some() { price.saturating_mul(n as u128) } else { 0 };
		sx::check(Ledger::bal(3, &acc(1)) == f0 - fee && Ledger::bal(3, &acc(5)) == o0 + fee, "the mint fee is price times quantity, paid to the owner");
	} else {
		sx::reach("err");
		sx::check(owner_of(q) == before && post.next_serial_number == pre.next_serial_number && post.collection_issuance == pre.collection_issuance, "a failed mint changes nothing");
		sx::check(Ledger::bal(3, &acc(1)) == f0 && Ledger::bal(3, &acc(5)) == o0, "a failed mint charges nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_mint_0() {
	mint(0, 0)
}
#[no_mangle]
pub extern "C" fn h_mint_2() {
	mint(1, 1)
}
#[no_mangle]
pub extern "C" fn h_burn() {
	let pre = collection(2, 1, acc(5));
	lock_any();
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let who = pick_acc(3);
	let (s, q) = (sx::u32(), sx::u32());
	let (b_s, b_q) = (owner_of(s), owner_of(q));
	let locked = TokenLocks::<T>::contains_key((COL, s));
	let r = with_layer(|| Pallet::<T>::burn(signed!(who), (COL, s)));
	let post = info().unwrap();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(wf(&post), "no serial is held twice and issuance counts the tokens");
		sx::check(b_s == Some(who), "only the owner burns a token");
		sx::check(!locked, "locked tokens cannot be burnt");
		sx::check(UtilityFlags::<T>::get(COL).burnable, "burning can be switched off");
		sx::check(owner_of(s).is_none(), "a burnt token has no owner");
		sx::check(q == s || owner_of(q) == b_q, "other tokens keep their owner");
		sx::check(post.collection_issuance == pre.collection_issuance - 1 && post.next_serial_number == pre.next_serial_number, "issuance drops by one and the serial is not reused");
		sx::check(Moves::get().contains(&(COL, s)), "the approvals are told about a burnt token");
	} else {
		sx::reach("err");
		sx::check(owner_of(q) == b_q && post.collection_issuance == pre.collection_issuance, "a failed burn changes nothing");
	}
}
/// Bridged mint: arbitrary serial lists, duplicates and existing serials included.
fn bridged(k: usize) {
	let pre = collection(1, 1, acc(5));
	sx::assume(pre.origin_chain == OriginChain::Ethereum && pre.max_issuance.is_none());
	let mut list = vec![];
	for _ in 0..k {
		list.push(sx::u32());
	}
	let to = pick_acc(3);
	let q = sx::u32();
	let before = owner_of(q);
	let mut hit = false;
	for s in &list {
		hit |= *s == q;
	}
	let r = Pallet::<T>::mint_bridged_nft(&to, COL, list);
	let post = info().unwrap();
	sx::check(wf(&post), "no serial is held twice and issuance counts the tokens");
	if r.is_ok() {
		sx::reach("ok");
		sx::check(owner_of(q) == if hit && before.is_none() { Some(to) } else { before }, "bridged serials go to the recipient unless they already exist");
	} else {
		sx::reach("err");
		sx::check(owner_of(q) == before, "failure changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_bridged_2() {
	bridged(2)
}
#[no_mangle]
pub extern "C" fn h_bridged_3() {
	bridged(3)
}
/// Everything only the collection owner may change.
#[no_mangle]
pub extern "C" fn h_admin() {
	let pre = collection(1, 0, acc(5));
	let who = if sx::bool() { acc(5) } else { any_acc() };
	let k = sx::choose(8);
	let x = sx::u32();
	let o = signed!(who);
	let sched = RoyaltiesSchedule { entitlements: BoundedVec::try_from(vec![(acc(1), sp_runtime::Permill::from_parts(sx::u32())), (acc(2), sp_runtime::Permill::from_parts(sx::u32()))]).ok().unwrap() };
	let fl = flags();
	let r = with_layer(|| match k {
		0 => Pallet::<T>::set_owner(o, COL, acc(7)),
		1 => Pallet::<T>::set_max_issuance(o, COL, x),
		2 => Pallet::<T>::set_base_uri(o, COL, b"z".to_vec()),
		3 => Pallet::<T>::toggle_public_mint(o, COL, true),
		4 => Pallet::<T>::set_mint_fee(o, COL, Some((3, 5))),
		5 => Pallet::<T>::set_name(o, COL, BoundedVec::try_from(b"q".to_vec()).ok().unwrap()),
		6 => Pallet::<T>::set_royalties_schedule(o, COL, sched.clone()),
		_ => Pallet::<T>::set_utility_flags(o, COL, fl),
	});
	let post = info().unwrap();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(who == acc(5), "only the collection owner administers it");
		sx::check(wf(&post), "administration keeps the collection well formed");
		sx::check(k == 1 || post.max_issuance == pre.max_issuance, "the maximum issuance is set only explicitly");
		sx::check(k != 1 || (pre.max_issuance.is_none() && post.max_issuance == Some(x) && x > 0), "the maximum issuance is set once");
		sx::check(post.owner == if k == 0 { acc(7) } else { acc(5) }, "ownership passes to the named account");
		sx::check(post.owned_tokens == pre.owned_tokens && post.next_serial_number == pre.next_serial_number && post.collection_issuance == pre.collection_issuance, "administration never touches tokens");
		if let Some(rs) = &post.royalties_schedule {
			let t: u64 = rs.entitlements.iter().map(|(_, p)| p.deconstruct() as u64).sum();
			sx::check(t <= 1_000_000, "royalties never exceed the price");
		}
		if k == 7 {
			sx::check(UtilityFlags::<T>::get(COL) == fl, "utility flags are stored");
		}
		if k == 2 {
			sx::check(!pre.cross_chain_compatibility.xrpl && pre.origin_chain == OriginChain::Root, "metadata of bridged collections is fixed");
		}
	} else {
		sx::reach("err");
		sx::check(post == pre, "a refused call changes nothing");
		sx::check(!PublicMintInfo::<T>::contains_key(COL) && !UtilityFlags::<T>::contains_key(COL), "a refused call changes nothing else");
	}
}
/// Creating a collection: unique id, sane initial state.
#[no_mangle]
pub extern "C" fn h_create() {
	let next = sx::u32();
	sx::assume(next < (1 << 23));
	NextCollectionId::<T>::put(next);
	let who = acc(5);
	let n = sx::u32();
	sx::assume(n < 5);
	let max = if sx::bool() { Some(sx::u32()) } else { None };
	let to = if sx::bool() { Some(acc(1)) } else { None };
	let xrpl = sx::bool();
	let roy = if sx::bool() { Some(RoyaltiesSchedule { entitlements: BoundedVec::try_from(vec![(acc(1), sp_runtime::Permill::from_parts(sx::u32())), (acc(2), sp_runtime::Permill::from_parts(sx::u32()))]).ok().unwrap() }) } else { None };
	let ms = MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap());
	let r = with_layer(|| Pallet::<T>::create_collection(signed!(who), BoundedVec::try_from(b"n".to_vec()).ok().unwrap(), n, max, to, ms, roy, CrossChainCompatibility { xrpl }));
	let id = (next << 10) | 100;
	if r.is_ok() {
		sx::reach("ok");
		sx::check(NextCollectionId::<T>::get() == next + 1 && id >> 10 == next, "collection ids are used once");
		let c = CollectionInfo::<T>::get(id);
		sx::check(c.is_some(), "the collection lives under its own id");
		let c = c.unwrap();
		sx::check(wf(&c), "no serial is held twice and issuance counts the tokens");
		sx::check(c.owner == who && c.collection_issuance == n && c.next_serial_number == n, "the creator owns the collection and its initial supply is as asked");
		sx::check(n <= MintLim::get() && max.map_or(true, |m| n <= m && m <= MaxTok::get() && m > 0), "initial supply respects the limits");
		sx::check(n == 0 || !xrpl, "XLS-20 collections start empty");
		sx::check(NewAssets::get() == vec![id], "the EVM side learns about the collection");
		if let Some(rs) = &c.royalties_schedule {
			let t: u64 = rs.entitlements.iter().map(|(_, p)| p.deconstruct() as u64).sum();
			sx::check(t <= 1_000_000, "royalties never exceed the price");
		}
		let s = sx::u32();
		sx::check(c.get_token_owner(s) == if s < n { Some(to.unwrap_or(who)) } else { None }, "initial tokens belong to the named account");
	} else {
		sx::reach("err");
		sx::check(NextCollectionId::<T>::get() == next && !CollectionInfo::<T>::contains_key(id), "failure creates nothing");
	}
}
/// Locks taken and released on behalf of listings.
#[no_mangle]
pub extern "C" fn h_lock() {
	let _ = collection(1, 1, acc(5));
	lock_any();
	let s = sx::u32();
	let who = pick_acc(3);
	let l = sx::u128();
	let was = TokenLocks::<T>::get((COL, s));
	let r = <Pallet<T> as NFTExt>::set_token_lock((COL, s), TokenLockReason::Listed(l), who);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(was.is_none() && owner_of(s) == Some(who), "only unlocked tokens are locked, for their owner");
		sx::check(TokenLocks::<T>::get((COL, s)) == Some(TokenLockReason::Listed(l)), "the lock names its listing");
		sx::check(with_layer(|| Pallet::<T>::transfer(signed!(who), COL, bv(&[s]), acc(3))).is_err(), "a locked token does not move");
		sx::check(with_layer(|| Pallet::<T>::burn(signed!(who), (COL, s))).is_err(), "a locked token is not burnt");
	} else {
		sx::reach("err");
		sx::check(TokenLocks::<T>::get((COL, s)) == was, "a refused lock changes nothing");
	}
}
