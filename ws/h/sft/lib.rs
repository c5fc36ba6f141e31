#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_sft::*;
use seed_pallet_common::utils::{CollectionUtilityFlags, PublicMintInformation};
use seed_pallet_common::SFTExt;
use seed_primitives::*;

sys!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 3;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = MintLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = Rec;
}
type Col = SftCollectionInformation<Acc, StrLim>;
type Tok = SftTokenInformation<Acc, StrLim, MaxOwners>;
const COL: u32 = (7 << 10) | 100;

fn name<N: frame_support::traits::Get<u32>>(b: &[u8]) -> BoundedVec<u8, N> {
	BoundedVec::try_from(b.to_vec()).ok().unwrap()
}
fn tok(s: u32) -> Option<Tok> {
	TokenInfo::<T>::get((COL, s))
}
fn entry(t: &Option<Tok>, w: &Acc) -> (u128, u128) {
	if let Some(t) = t {
		for (o, b) in t.owned_tokens.iter() {
			if o == w {
				return (b.free_balance, b.reserved_balance);
			}
		}
	}
	(0, 0)
}
/// Owners are distinct, the balances add up to the issuance, the issuance respects its cap.
fn wf(t: &Tok) -> bool {
	let mut ok = true;
	let mut sum = 0u128;
	for (k, (o, b)) in t.owned_tokens.iter().enumerate() {
		for (p, _) in t.owned_tokens.iter().skip(k + 1) {
			ok &= o != p;
		}
		let (s, v) = sum.overflowing_add(b.free_balance);
		ok &= !v;
		let (s, v) = s.overflowing_add(b.reserved_balance);
		ok &= !v;
		sum = s;
	}
	ok &= sum == t.token_issuance;
	if let Some(m) = t.max_issuance {
		ok &= t.token_issuance <= m;
	}
	ok
}
fn collection() -> Col {
	let c = Col {
		collection_owner: acc(5),
		collection_name: name(b"c"),
		metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
		royalties_schedule: None,
		origin_chain: OriginChain::Root,
		next_serial_number: sx::u32(),
	};
	SftCollectionInfo::<T>::insert(COL, c.clone());
	c
}
/// A token whose holders are accounts 0..n with arbitrary balances.
fn token(s: u32, n: u8) -> Tok {
	let mut v = vec![];
	let mut sum = 0u128;
	for k in 0..n {
		let (f, r) = (sx::u128(), sx::u128());
		sx::assume(f <= u128::MAX - sum);
		sum += f;
		sx::assume(r <= u128::MAX - sum);
		sum += r;
		v.push((acc(k), SftTokenBalance::new(f, r)));
	}
	let m = if sx::bool() { Some(sx::u128()) } else { None };
	if let Some(m) = m {
		sx::assume(sum <= m);
	}
	let t = Tok { token_name: name(b"t"), max_issuance: m, token_issuance: sum, owned_tokens: BoundedVec::try_from(v).ok().unwrap() };
	TokenInfo::<T>::insert((COL, s), t.clone());
	t
}
fn flags() -> CollectionUtilityFlags {
	CollectionUtilityFlags { transferable: sx::bool(), burnable: sx::bool(), mintable: sx::bool() }
}
fn list(k: usize) -> Vec<(u32, u128)> {
	(0..k).map(|_| (sx::u32(), sx::u128())).collect()
}
/// Sum of the listed quantities of serial `s` (never wraps on success; checked by the caller).
fn total(l: &[(u32, u128)], s: u32) -> (u128, bool) {
	let mut t = 0u128;
	let mut over = false;
	for (x, q) in l {
		let (n, v) = t.overflowing_add(if *x == s { *q } else { 0 });
		t = n;
		over |= v;
	}
	(t, over)
}
fn zero_q(l: &[(u32, u128)]) -> bool {
	let mut z = false;
	for (_, q) in l {
		z |= *q == 0;
	}
	z
}
fn transfer(n0: u8, n1: u8, k: usize) {
	collection();
	token(0, n0);
	token(1, n1);
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let (who, to) = (pick_acc(3), pick_acc(4));
	let l = list(k);
	let s = sx::choose(2) as u32;
	let other = acc(2);
	let pre = tok(s);
	let (w0, t0, x0) = (entry(&pre, &who), entry(&pre, &to), entry(&pre, &other));
	let r = with_layer(|| Pallet::<T>::transfer(signed!(who), COL, BoundedVec::try_from(l.clone()).ok().unwrap(), to));
	let post = tok(s);
	if r.is_ok() {
		sx::reach("ok");
		let (q, over) = total(&l, s);
		sx::check(!over && !zero_q(&l) && who != to, "quantities are positive and really held");
		sx::check(w0.0 >= q && entry(&post, &who) == (w0.0 - q, w0.1), "the sender's free balance drops by the quantity");
		sx::check(entry(&post, &to) == (t0.0 + q, t0.1), "the receiver's free balance grows by the quantity");
		sx::check(other == who || other == to || entry(&post, &other) == x0, "nobody else's balance moves");
		sx::check(wf(post.as_ref().unwrap()) && post.as_ref().unwrap().token_issuance == pre.as_ref().unwrap().token_issuance, "supply is conserved and balances add up to it");
		sx::check(UtilityFlags::<T>::get(COL).transferable, "transfers can be switched off");
		let mut known = true;
		for (x, _) in &l {
			known &= *x < 2;
		}
		sx::check(known, "only existing tokens move");
	} else {
		sx::reach("err");
		sx::check(post == pre, "a failed transfer moves nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_transfer_1() {
	transfer(2, 1, 1)
}
#[no_mangle]
pub extern "C" fn h_transfer_2() {
	transfer(2, 1, 2)
}
#[no_mangle]
pub extern "C" fn h_transfer_full() {
	transfer(3, 1, 2)
}
fn mint(n0: u8, k: usize) {
	collection();
	token(0, n0);
	token(1, 1);
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let (public, priced, price) = (sx::bool(), sx::bool(), sx::u128());
	if sx::bool() {
		PublicMintInfo::<T>::insert((COL, 0), PublicMintInformation { enabled: public, pricing_details: if priced { Some((3, price)) } else { None } });
	}
	let pmi = PublicMintInfo::<T>::get((COL, 0)).unwrap_or_default();
	let who = if sx::bool() { acc(5) } else { acc(1) };
	let to = if sx::bool() { Some(pick_acc(4)) } else { None };
	let rcpt = to.unwrap_or(who);
	Ledger::create(3, sx::u128());
	let (f0, o0) = (sx::u128(), sx::u128());
	Ledger::set(3, &acc(1), f0);
	Ledger::set(3, &acc(5), o0);
	let l = list(k);
	let s = sx::choose(2) as u32;
	let pre = tok(s);
	let r0 = entry(&pre, &rcpt);
	let x = pick_acc(3);
	let x0 = entry(&pre, &x);
	let r = with_layer(|| Pallet::<T>::mint(signed!(who), COL, BoundedVec::try_from(l.clone()).ok().unwrap(), to));
	let post = tok(s);
	let (q, over) = total(&l, s);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(!over && !zero_q(&l), "quantities are positive");
		let p = post.as_ref().unwrap();
		sx::check(wf(p) && p.token_issuance == pre.as_ref().unwrap().token_issuance + q, "supply grows by the quantity and stays within its cap");
		sx::check(p.max_issuance == pre.as_ref().unwrap().max_issuance, "minting does not change the cap");
		sx::check(entry(&post, &rcpt) == (r0.0 + q, r0.1), "the recipient gets the quantity");
		sx::check(x == rcpt || entry(&post, &x) == x0, "nobody else's balance moves");
		sx::check(UtilityFlags::<T>::get(COL).mintable, "minting can be switched off");
		let mut all0 = true;
		let mut fee = 0u128;
		for (t, q) in &l {
			all0 &= *t == 0;
			if pmi.pricing_details.is_some() {
				fee = fee.saturating_add(price.saturating_mul(*q));
			}
		}
		sx::check(who == acc(5) || (pmi.enabled && all0), "only the owner mints unless public mint is on");
		if who == acc(5) {
			fee = 0;
		}
		sx::check(f0 >= fee && Ledger::bal(3, &acc(1)) == f0 - fee && Ledger::bal(3, &acc(5)) == o0 + fee, "the mint fee is price times quantity, paid to the owner");
	} else {
		sx::reach("err");
		sx::check(post == pre && Ledger::bal(3, &acc(1)) == f0, "a failed mint changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_mint_1() {
	mint(2, 1)
}
#[no_mangle]
pub extern "C" fn h_mint_2() {
	mint(2, 2)
}
#[no_mangle]
pub extern "C" fn h_mint_full() {
	mint(3, 1)
}
fn burn(k: usize) {
	collection();
	token(0, 2);
	token(1, 1);
	if sx::bool() {
		UtilityFlags::<T>::insert(COL, flags());
	}
	let who = pick_acc(3);
	let l = list(k);
	let s = sx::choose(2) as u32;
	let pre = tok(s);
	let w0 = entry(&pre, &who);
	let x = pick_acc(2);
	let x0 = entry(&pre, &x);
	let r = with_layer(|| Pallet::<T>::burn(signed!(who), COL, BoundedVec::try_from(l.clone()).ok().unwrap()));
	let post = tok(s);
	if r.is_ok() {
		sx::reach("ok");
		let (q, over) = total(&l, s);
		let p = post.as_ref().unwrap();
		sx::check(!over && !zero_q(&l) && q <= w0.0, "only free balance the caller holds is burnt");
		sx::check(entry(&post, &who) == (w0.0 - q, w0.1), "the caller's free balance drops by the quantity");
		sx::check(wf(p) && p.token_issuance == pre.as_ref().unwrap().token_issuance - q, "supply drops by the quantity");
		sx::check(x == who || entry(&post, &x) == x0, "nobody else's balance moves");
		sx::check(UtilityFlags::<T>::get(COL).burnable, "burning can be switched off");
	} else {
		sx::reach("err");
		sx::check(post == pre, "a failed burn changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_burn_1() {
	burn(1)
}
#[no_mangle]
pub extern "C" fn h_burn_2() {
	burn(2)
}
/// Reserving balance for a listing and releasing it.
#[no_mangle]
pub extern "C" fn h_reserve() {
	collection();
	token(0, 2);
	let who = pick_acc(3);
	let x = pick_acc(2);
	let (s, q, on) = (sx::u32(), sx::u128(), sx::bool());
	let pre = tok(0);
	let (w0, x0) = (entry(&pre, &who), entry(&pre, &x));
	let r = if on { <Pallet<T> as SFTExt>::reserve_balance((COL, s), q, &who) } else { <Pallet<T> as SFTExt>::free_reserved_balance((COL, s), q, &who) };
	let post = tok(0);
	if r.is_ok() {
		sx::reach("ok");
		let e = entry(&post, &who);
		if on {
			sx::check(q <= w0.0 && e == (w0.0 - q, w0.1 + q), "reserving moves free balance to reserved");
		} else {
			sx::check(q <= w0.1 && e == (w0.0 + q, w0.1 - q), "releasing moves reserved balance to free");
		}
		sx::check(s == 0, "only existing tokens are reserved");
		sx::check(wf(post.as_ref().unwrap()) && post.as_ref().unwrap().token_issuance == pre.as_ref().unwrap().token_issuance, "supply is conserved and balances add up to it");
		sx::check(x == who || entry(&post, &x) == x0, "nobody else's balance moves");
		// what is reserved cannot be moved or burnt
		let m = sx::u128();
		sx::assume(m > e.0);
		let l = BoundedVec::try_from(vec![(0u32, m)]).ok().unwrap();
		sx::check(with_layer(|| Pallet::<T>::transfer(signed!(who), COL, l.clone(), acc(9))).is_err(), "reserved balance cannot be transferred");
		sx::check(with_layer(|| Pallet::<T>::burn(signed!(who), COL, l)).is_err(), "reserved balance cannot be burnt");
	} else {
		sx::reach("err");
		sx::check(post == pre, "failure changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_create() {
	let next = sx::u32();
	sx::assume(next < (1 << 23));
	pallet_nft::NextCollectionId::<T>::put(next);
	let who = acc(1);
	let owner = if sx::bool() { Some(acc(5)) } else { None };
	let empty = sx::bool();
	let roy = if sx::bool() { Some(RoyaltiesSchedule { entitlements: BoundedVec::try_from(vec![(acc(1), sp_runtime::Permill::from_parts(sx::u32())), (acc(2), sp_runtime::Permill::from_parts(sx::u32()))]).ok().unwrap() }) } else { None };
	let ms = MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap());
	let r = with_layer(|| Pallet::<T>::create_collection(signed!(who), name(if empty { b"" } else { b"n" }), owner, ms, roy));
	let id = (next << 10) | 100;
	let now = pallet_nft::NextCollectionId::<T>::get();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(now == next + 1 && id >> 10 == next, "collection ids are used once, shared with the NFT collections");
		let c = SftCollectionInfo::<T>::get(id);
		sx::check(c.is_some() && !empty, "the collection lives under its own id");
		let c = c.unwrap();
		sx::check(c.collection_owner == owner.unwrap_or(who) && c.next_serial_number == 0, "the named account owns the collection");
		sx::check(NewAssets::get() == vec![id], "the EVM side learns about the collection");
		if let Some(rs) = &c.royalties_schedule {
			let t: u64 = rs.entitlements.iter().map(|(_, p)| p.deconstruct() as u64).sum();
			sx::check(t <= 1_000_000, "royalties never exceed the price");
		}
	} else {
		sx::reach("err");
		sx::check(now == next && !SftCollectionInfo::<T>::contains_key(id), "failure creates nothing");
	}
}
/// Everything only the collection owner may change, creating tokens included.
#[no_mangle]
pub extern "C" fn h_admin() {
	let pre = collection();
	let t0 = token(0, 2);
	sx::assume(pre.next_serial_number > 0);
	let who = if sx::bool() { acc(5) } else { any_acc() };
	let o = signed!(who);
	let k = sx::choose(9);
	let (s, x, fl) = (sx::u32(), sx::u128(), flags());
	let m = if sx::bool() { Some(sx::u128()) } else { None };
	let to = if sx::bool() { Some(pick_acc(2)) } else { None };
	let on = sx::bool();
	let sched = RoyaltiesSchedule { entitlements: BoundedVec::try_from(vec![(acc(1), sp_runtime::Permill::from_parts(sx::u32())), (acc(2), sp_runtime::Permill::from_parts(sx::u32()))]).ok().unwrap() };
	let r = with_layer(|| match k {
		0 => Pallet::<T>::set_owner(o, COL, acc(7)),
		1 => Pallet::<T>::set_max_issuance(o, (COL, s), x),
		2 => Pallet::<T>::set_base_uri(o, COL, MetadataScheme(BoundedVec::try_from(b"z".to_vec()).ok().unwrap())),
		3 => Pallet::<T>::toggle_public_mint(o, (COL, s), on),
		4 => Pallet::<T>::set_mint_fee(o, (COL, s), Some((3, x))),
		5 => Pallet::<T>::set_name(o, COL, name(b"q")),
		6 => Pallet::<T>::set_royalties_schedule(o, COL, sched.clone()),
		7 => Pallet::<T>::set_utility_flags(o, COL, fl),
		_ => Pallet::<T>::create_token(o, COL, name(b"t"), x, m, to),
	});
	let c = SftCollectionInfo::<T>::get(COL).unwrap();
	let t = tok(0).unwrap();
	let n = pre.next_serial_number;
	if r.is_ok() {
		sx::reach("ok");
		sx::check(who == acc(5), "only the collection owner administers it");
		sx::check(c.collection_owner == if k == 0 { acc(7) } else { acc(5) }, "ownership passes to the named account");
		sx::check(c.next_serial_number == if k == 8 { n.wrapping_add(1) } else { n } && (k != 8 || n < u32::MAX), "serials are never handed out again");
		sx::check(t.owned_tokens == t0.owned_tokens && t.token_issuance == t0.token_issuance, "administration never touches balances");
		sx::check(t.max_issuance == if k == 1 { Some(x) } else { t0.max_issuance }, "the maximum issuance is set only explicitly");
		sx::check(k != 1 || (t0.max_issuance.is_none() && s == 0 && x > 0), "the maximum issuance is set once");
		sx::check(wf(&t), "issuance stays within its cap");
		if let Some(rs) = &c.royalties_schedule {
			let t: u64 = rs.entitlements.iter().map(|(_, p)| p.deconstruct() as u64).sum();
			sx::check(k == 6 && t <= 1_000_000, "royalties never exceed the price");
		}
		if k == 3 {
			sx::check(PublicMintInfo::<T>::get((COL, s)).unwrap_or_default().enabled == on, "public mint is switched as asked");
		}
		if k == 7 {
			sx::check(UtilityFlags::<T>::get(COL) == fl, "utility flags are stored");
		}
		if k == 8 {
			let nt = tok(n);
			sx::check(nt.is_some(), "the new token has the next serial");
			let y = nt.as_ref().unwrap();
			sx::check(wf(y) && y.token_issuance == x && y.max_issuance == m && entry(&nt, &to.unwrap_or(who)) == (x, 0), "the initial supply goes to the named owner");
		}
	} else {
		sx::reach("err");
		sx::check(c == pre && t == t0, "a refused call changes nothing");
		sx::check(!PublicMintInfo::<T>::contains_key((COL, s)) && !UtilityFlags::<T>::contains_key(COL), "a refused call changes nothing else");
	}
}
