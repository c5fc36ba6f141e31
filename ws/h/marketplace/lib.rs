#![allow(non_snake_case)]
use frame_support::traits::Hooks;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_marketplace::types::*;
use pallet_marketplace::*;
use pallet_nft::{CollectionInfo, CollectionInformation, TokenLocks, TokenOwnership};
use pallet_sft::{SftCollectionInfo, SftCollectionInformation, SftTokenBalance, SftTokenInformation};
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_pallet_common::NFTExt;
use seed_primitives::*;
use sp_runtime::Permill;

sys!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	MPid: PalletId = PalletId(*b"marketpl");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 4;
	DefFee: Option<PalletId> = None;
	NetFee: Permill = Permill::from_parts(5_000);
	Dur: u32 = 1000;
	MaxList: u32 = 3;
	MaxMulti: u32 = 3;
	MaxOff: u32 = 3;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_sft::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = MintLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = Rec;
}
impl Config for T {
	type RuntimeCall = NoCall<T>;
	type DefaultListingDuration = Dur;
	type RuntimeEvent = ();
	type DefaultFeeTo = DefFee;
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type SFTExt = pallet_sft::Pallet<T>;
	type PalletId = MPid;
	type NetworkFeePercentage = NetFee;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxList;
	type MaxListingsPerMultiBuy = MaxMulti;
	type MaxOffers = MaxOff;
}
const COL: u32 = (7 << 10) | 100;
const SCOL: u32 = (8 << 10) | 100;
const PAY: u32 = 3;
const L: u128 = 5;
const O: u64 = 9;
/// seller 0, other accounts 1 and 2; royalty receivers 6, 7, 8
const ALL: [u8; 6] = [0, 1, 2, 6, 7, 8];

fn bv<X: Clone, N: frame_support::traits::Get<u32>>(v: &[X]) -> BoundedVec<X, N> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn owner(s: u32) -> Option<Acc> {
	<pallet_nft::Pallet<T> as NFTExt>::get_token_owner(&(COL, s))
}
fn lock(s: u32) -> Option<TokenLockReason> {
	TokenLocks::<T>::get((COL, s))
}
fn sft(w: &Acc) -> (u128, u128) {
	for (o, b) in pallet_sft::TokenInfo::<T>::get((SCOL, 0)).unwrap().owned_tokens.iter() {
		if o == w {
			return (b.free_balance, b.reserved_balance);
		}
	}
	(0, 0)
}
fn worth() -> u128 {
	let mut s = 0u128;
	for a in ALL {
		s = s.wrapping_add(Ledger::bal(PAY, &acc(a))).wrapping_add(Ledger::held(PAY, &acc(a)));
	}
	s
}
fn sched(n: usize) -> RoyaltiesSchedule<Acc> {
	let mut v = vec![];
	let mut t = 0u32;
	if n == 3 {
		// shares whose exact parts are awkward fractions
		let sets = [[333_333u32, 333_333, 333_334], [10_000, 5_000, 25_000]];
		let ps = sets[sx::choose(2) as usize];
		return RoyaltiesSchedule { entitlements: bv(&[(acc(6), Permill::from_parts(ps[0])), (acc(7), Permill::from_parts(ps[1])), (acc(8), Permill::from_parts(ps[2]))]) };
	}
	for k in 0..n {
		let p = sx::u32();
		sx::assume(p <= 1_000_000 - t);
		t += p;
		// a single royalty may also go to the seller or to account 1
		let to = if n == 1 { [6u8, 0, 1][sx::choose(3) as usize] } else { 6 + k as u8 };
		v.push((acc(to), Permill::from_parts(p)));
	}
	RoyaltiesSchedule { entitlements: bv(&v) }
}
#[derive(Clone, Copy, PartialEq)]
enum K {
	Fixed,
	Auction,
	None,
}
struct World {
	price: u128,
	close: u32,
	tokens: ListingTokens<T>,
	bid: Option<(Acc, u128)>,
	offer: Option<(Acc, u128)>,
	qty: u128,
}
/// Collections: NFT tokens 0,1 of account 0 and 2 of account 1; SFT token 0 held by accounts 0 and 1.
/// One listing L (fixed price or auction) by account 0 over NFT tokens 0..n or an amount of the SFT, optionally
/// with a winning bid and an offer on NFT token 0. Holds match, payment balances are arbitrary.
fn world(kind: K, nft: bool, n: u32, roy: usize, bid: bool, offer: bool) -> World {
	CollectionInfo::<T>::insert(
		COL,
		CollectionInformation::<Acc, MaxTok, StrLim> {
			owner: acc(6),
			name: bv(b"n"),
			metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: OriginChain::Root,
			next_serial_number: 3,
			collection_issuance: 3,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[0, 1]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[2]) }]),
		},
	);
	SftCollectionInfo::<T>::insert(
		SCOL,
		SftCollectionInformation::<Acc, StrLim> { collection_owner: acc(6), collection_name: bv(b"c"), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, origin_chain: OriginChain::Root, next_serial_number: 1 },
	);
	let qty = if !nft && kind != K::None { sx::u128() } else { 0 };
	let (f, g) = (sx::u64() as u128, sx::u64() as u128);
	sx::assume(nft || kind == K::None || (qty > 0 && qty < (1 << 64)));
	pallet_sft::TokenInfo::<T>::insert(
		(SCOL, 0),
		SftTokenInformation::<Acc, StrLim, MaxOwners> { token_name: bv(b"t"), max_issuance: None, token_issuance: f + g + qty, owned_tokens: bv(&[(acc(0), SftTokenBalance::new(f, qty)), (acc(1), SftTokenBalance::new(g, 0))]) },
	);
	if sx::bool() {
		let fl = CollectionUtilityFlags { transferable: sx::bool(), burnable: true, mintable: true };
		pallet_nft::UtilityFlags::<T>::insert(COL, fl);
		pallet_sft::UtilityFlags::<T>::insert(SCOL, fl);
	}
	FeeTo::<T>::put(None::<Acc>);
	let supply = sx::u128();
	Ledger::create(PAY, supply);
	let mut left = supply;
	for a in ALL {
		let b = sx::u128();
		sx::assume(b <= left);
		left -= b;
		Ledger::set(PAY, &acc(a), b);
	}
	let tokens = if nft { ListingTokens::Nft(NftListing { collection_id: COL, serial_numbers: bv(&(0..n).collect::<Vec<u32>>()) }) } else { ListingTokens::Sft(SftListing { collection_id: SCOL, serial_numbers: bv(&[(0u32, qty)]) }) };
	let now = sx::u32();
	let close = sx::u32();
	sx::assume(now < close && close < u32::MAX - 100);
	set_block(now);
	let price = sx::u128();
	NextListingId::<T>::put(L + 1);
	NextOfferId::<T>::put(O + 1);
	let mut hold = [0u128; 3];
	let mut wb = None;
	if kind != K::None {
		let rs = sched(roy);
		let l = if kind == K::Fixed {
			Listing::FixedPrice(FixedPriceListing { payment_asset: PAY, fixed_price: price, close, buyer: if sx::bool() { Some(acc(1)) } else { None }, seller: acc(0), tokens: tokens.clone(), royalties_schedule: rs, marketplace_id: None })
		} else {
			Listing::Auction(AuctionListing { payment_asset: PAY, reserve_price: price, close, seller: acc(0), tokens: tokens.clone(), royalties_schedule: rs, marketplace_id: None })
		};
		Listings::<T>::insert(L, l);
		ListingEndSchedule::<T>::insert(close, L, true);
		OpenCollectionListings::<T>::insert(if nft { COL } else { SCOL }, L, true);
		if nft {
			for s in 0..n {
				TokenLocks::<T>::insert((COL, s), TokenLockReason::Listed(L));
			}
		}
		if kind == K::Auction && bid {
			let k = sx::choose(2) as usize;
			let a = sx::u128();
			sx::assume(a >= price && a <= left);
			left -= a;
			hold[k] = a;
			wb = Some((acc(k as u8), a));
			ListingWinningBid::<T>::insert(L, (acc(k as u8), a));
		}
	}
	let mut of = None;
	if offer {
		let k = 1 + sx::choose(2) as usize;
		let a = sx::u128();
		sx::assume(a > 0 && a <= left);
		hold[k] += a;
		of = Some((acc(k as u8), a));
		Offers::<T>::insert(O, OfferType::Simple(SimpleOffer { token_id: (COL, 0), asset_id: PAY, amount: a, buyer: acc(k as u8), marketplace_id: None }));
		TokenOffers::<T>::insert((COL, 0), BoundedVec::try_from(vec![O]).ok().unwrap());
	}
	for k in 0..3 {
		Held::insert(PAY, acc(k as u8), hold[k]);
	}
	World { price, close, tokens, bid: wb, offer: of, qty }
}
fn listing(id: u128) -> Option<(Acc, ListingTokens<T>, u32, bool)> {
	match Listings::<T>::get(id) {
		Some(Listing::FixedPrice(l)) => Some((l.seller, l.tokens, l.close, false)),
		Some(Listing::Auction(l)) => Some((l.seller, l.tokens, l.close, true)),
		None => None,
	}
}
/// What has to be true between any two calls.
fn inv() {
	for s in 0..3u32 {
		if let Some(TokenLockReason::Listed(id)) = lock(s) {
			let l = listing(id);
			let mut ok = l.is_some();
			if let Some((seller, ListingTokens::Nft(t), _, _)) = l {
				ok = t.collection_id == COL && t.serial_numbers.contains(&s) && owner(s) == Some(seller);
			}
			sx::check(ok, "a token is locked only while its listing is open");
		}
	}
	let mut reserved = [0u128; 2];
	for id in [L, L + 1] {
		let l = listing(id);
		if let Some((seller, t, close, _)) = &l {
			match t {
				ListingTokens::Nft(t) =>
					for s in t.serial_numbers.iter() {
						sx::check(lock(*s) == Some(TokenLockReason::Listed(id)) && owner(*s) == Some(*seller), "listed tokens stay locked and owned by the seller");
					},
				ListingTokens::Sft(t) =>
					for (_, q) in t.serial_numbers.iter() {
						reserved[if *seller == acc(0) { 0 } else { 1 }] += *q;
					},
			}
			sx::check(ListingEndSchedule::<T>::contains_key(*close, id), "every open listing is scheduled to close");
			sx::check(*close > frame_system::Pallet::<T>::block_number(), "every open listing closes in the future");
		}
		if ListingWinningBid::<T>::contains_key(id) {
			sx::check(l.map_or(false, |l| l.3), "a winning bid exists only for an open auction");
		}
	}
	for k in 0..2u8 {
		sx::check(sft(&acc(k)).1 == reserved[k as usize], "semi-fungible tokens are reserved exactly while listed");
	}
	let mut hold = [0u128; 3];
	for id in [L, L + 1] {
		if let Some((w, a)) = ListingWinningBid::<T>::get(id) {
			for k in 0..3u8 {
				if w == acc(k) {
					hold[k as usize] += a;
				}
			}
		}
	}
	for id in [O, O + 1] {
		if let Some(OfferType::Simple(o)) = Offers::<T>::get(id) {
			for k in 0..3u8 {
				if o.buyer == acc(k) {
					hold[k as usize] += o.amount;
				}
			}
			sx::check(TokenOffers::<T>::get(o.token_id).map_or(false, |v| v.contains(&id)), "every offer is indexed under its token");
		}
	}
	for k in 0..3u8 {
		sx::check(Ledger::held(PAY, &acc(k)) == hold[k as usize], "funds are held exactly for winning bids and open offers");
	}
}
fn transferable(nft: bool) -> bool {
	if nft {
		pallet_nft::UtilityFlags::<T>::get(COL).transferable
	} else {
		pallet_sft::UtilityFlags::<T>::get(SCOL).transferable
	}
}
fn restricted() -> Option<Acc> {
	match Listings::<T>::get(L) {
		Some(Listing::FixedPrice(l)) => l.buyer,
		_ => None,
	}
}
fn buy(nft: bool, n: u32, roy: usize) {
	let w = world(K::Fixed, nft, n, roy, false, false);
	let who = pick_acc(3);
	let only = restricted();
	let royal: Vec<Acc> = match Listings::<T>::get(L) {
		Some(Listing::FixedPrice(l)) => l.royalties_schedule.entitlements.iter().map(|(a, _)| *a).collect(),
		_ => vec![],
	};
	let shares: Vec<u32> = match Listings::<T>::get(L) {
		Some(Listing::FixedPrice(l)) => l.royalties_schedule.entitlements.iter().map(|(_, p)| p.deconstruct()).collect(),
		_ => vec![],
	};
	let r0: Vec<u128> = (6..9u8).map(|k| Ledger::bal(PAY, &acc(k))).collect();
	if roy == 3 && shares[2] == 25_000 {
		sx::assume(w.price < (1 << 90));
	}
	let (b0, s0) = (Ledger::bal(PAY, &who), Ledger::bal(PAY, &acc(0)));
	let g0 = sft(&who);
	let total = worth();
	let r = with_layer(|| Pallet::<T>::buy(signed!(who), L));
	inv();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(only.map_or(true, |b| b == who), "a reserved sale goes to its buyer only");
		sx::check(Listings::<T>::get(L).is_none(), "a sold listing is closed");
		sx::check(who == acc(0) || royal.contains(&who) || Ledger::bal(PAY, &who) == b0 - w.price, "the buyer pays exactly the price");
		if roy == 3 && shares[2] == 25_000 {
			for k in 0..3 {
				let got = Ledger::bal(PAY, &acc(6 + k as u8)) - r0[k];
				let exact = shares[k] as u128 * w.price;
				sx::check(got * 1_000_000 <= exact + 500_000 && got * 1_000_000 + 500_000 >= exact, "every royalty receiver gets its share of the price");
			}
		}
		sx::check(worth() == total, "royalties and proceeds add up to the price");
		sx::check(Ledger::bal(PAY, &acc(0)) >= s0 || who == acc(0), "the seller never pays");
		if nft {
			for s in 0..n {
				sx::check(owner(s) == Some(who) && lock(s).is_none(), "the buyer gets every token of the bundle, unlocked");
			}
		} else {
			sx::check(sft(&who) == (g0.0 + w.qty, g0.1), "the buyer gets the listed amount");
		}
	} else {
		sx::reach("err");
		sx::check(Listings::<T>::get(L).is_some() && Ledger::bal(PAY, &who) == b0, "a failed purchase changes nothing");
		sx::check(b0 < w.price || only.map_or(false, |b| b != who) || !transferable(nft) || who == acc(0) || royal.contains(&who), "an open listing can be bought by whoever can pay");
	}
}
#[no_mangle]
pub extern "C" fn h_buy_nft() {
	buy(true, 2, 1)
}
#[no_mangle]
pub extern "C" fn h_buy_roy() {
	buy(true, 1, 3)
}
#[no_mangle]
pub extern "C" fn h_buy_sft() {
	buy(false, 0, 1)
}
fn cancel(nft: bool, n: u32, k: K) {
	let w = world(k, nft, n, 1, true, false);
	let who = pick_acc(3);
	let s0 = sft(&acc(0));
	let r = with_layer(|| Pallet::<T>::cancel_sale(signed!(who), L));
	inv();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(who == acc(0) && w.bid.is_none(), "only the seller cancels, and never over a bid");
		sx::check(Listings::<T>::get(L).is_none(), "a cancelled listing is closed");
		sx::check(nft || sft(&acc(0)) == (s0.0 + w.qty, 0), "the listed amount is released to the seller");
	} else {
		sx::reach("err");
		sx::check(Listings::<T>::get(L).is_some(), "a refused cancellation changes nothing");
		sx::check(who != acc(0) || w.bid.is_some(), "the seller can cancel a sale without bids");
	}
}
#[no_mangle]
pub extern "C" fn h_cancel_nft() {
	cancel(true, 2, if sx::bool() { K::Fixed } else { K::Auction })
}
#[no_mangle]
pub extern "C" fn h_cancel_sft() {
	cancel(false, 0, if sx::bool() { K::Fixed } else { K::Auction })
}
fn bid(first: bool, nft: bool) {
	let w = world(K::Auction, nft, 1, 0, !first, false);
	let who = pick_acc(3);
	let amount = sx::u128();
	let now = frame_system::Pallet::<T>::block_number();
	let total = worth();
	let r = with_layer(|| Pallet::<T>::bid(signed!(who), L, amount));
	inv();
	sx::check(worth() == total, "bidding moves no money out");
	let post = ListingWinningBid::<T>::get(L);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(post == Some((who, amount)), "the bid becomes the winning bid");
		sx::check(w.bid.map_or(amount >= w.price, |b| amount > b.1), "bids start at the reserve price and only rise");
		let c = listing(L).unwrap().2;
		sx::check(c >= w.close && c > now, "a bid never shortens the auction");
		sx::check(w.close - now > 40 || c == now + 40, "a late bid extends the auction");
	} else {
		sx::reach("err");
		sx::check(post == w.bid, "a refused bid changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_bid_first() {
	bid(true, true)
}
#[no_mangle]
pub extern "C" fn h_bid_over() {
	bid(false, true)
}
/// The block in which a listing closes.
fn close(k: K, nft: bool, n: u32, roy: usize, b: bool) {
	let w = world(k, nft, n, roy, b, false);
	let at = sx::u32();
	sx::assume(at > frame_system::Pallet::<T>::block_number() && at <= w.close);
	set_block(at);
	let total = worth();
	let s0 = (sft(&acc(0)), sft(&acc(1)));
	let _ = Pallet::<T>::on_initialize(at);
	inv();
	sx::check(worth() == total, "royalties and proceeds add up to the price");
	sx::check(Listings::<T>::get(L).is_some() == (at < w.close), "listings close exactly when due");
	if at < w.close {
		sx::reach("open");
		return;
	}
	sx::reach("closed");
	sx::check(ListingWinningBid::<T>::get(L).is_none(), "no bid outlives its auction");
	let mut to = acc(0);
	if let Some((x, _)) = w.bid {
		if transferable(nft) {
			to = x;
		}
	}
	if nft {
		for s in 0..n {
			sx::check(lock(s).is_none(), "closing a listing unlocks its tokens");
			sx::check(owner(s) == Some(to), "the tokens go to the highest bidder, or stay with the seller");
		}
	} else {
		sx::check(if to == acc(0) { sft(&acc(0)) == (s0.0 .0 + w.qty, 0) } else { sft(&acc(1)) == (s0.1 .0 + w.qty, 0) }, "the listed amount goes to the highest bidder, or stays with the seller");
	}
}
#[no_mangle]
pub extern "C" fn h_close_fixed() {
	close(K::Fixed, true, 2, 1, false)
}
#[no_mangle]
pub extern "C" fn h_close_nobid() {
	close(K::Auction, true, 2, 1, false)
}
#[no_mangle]
pub extern "C" fn h_close_bid() {
	close(K::Auction, true, 2, 1, true)
}
#[no_mangle]
pub extern "C" fn h_close_sft() {
	close(K::Auction, false, 0, 1, true)
}
/// Opening a listing.
fn sell(nft: bool) {
	let _ = world(K::None, nft, 0, 0, false, false);
	let who = pick_acc(3);
	let (a, b) = (sx::u32(), sx::u32());
	sx::assume(a < 4 && b < 4);
	let two = sx::bool();
	let qs = (sx::u64() as u128, sx::u64() as u128);
	let tokens = if nft { ListingTokens::Nft(NftListing { collection_id: COL, serial_numbers: if two { bv(&[a, b]) } else { bv(&[a]) } }) } else { ListingTokens::Sft(SftListing { collection_id: SCOL, serial_numbers: if two { bv(&[(0u32, qs.0), (0u32, qs.1)]) } else { bv(&[(0u32, qs.0)]) } }) };
	let auction = sx::bool();
	let price = sx::u128();
	let dur = if sx::bool() { Some(sx::u32()) } else { None };
	let now = frame_system::Pallet::<T>::block_number();
	sx::assume(dur.map_or(true, |d| d < u32::MAX - now) && now < u32::MAX - 2000);
	let mkt = if sx::bool() { Some(1) } else { None };
	let ent = sx::u32();
	if sx::bool() {
		RegisteredMarketplaces::<T>::insert(1, Marketplace { account: acc(8), entitlement: Permill::from_parts(ent) });
	}
	if sx::bool() {
		FeeTo::<T>::put(Some(acc(7)));
	}
	let rs = sched(1);
	if sx::bool() {
		CollectionInfo::<T>::mutate(COL, |c| c.as_mut().unwrap().royalties_schedule = Some(rs.clone()));
		SftCollectionInfo::<T>::mutate(SCOL, |c| c.as_mut().unwrap().royalties_schedule = Some(rs.clone()));
	}
	let r = with_layer(|| if auction { Pallet::<T>::auction(signed!(who), tokens.clone(), PAY, price, dur, mkt) } else { Pallet::<T>::sell(signed!(who), tokens.clone(), None, PAY, price, dur, mkt) });
	inv();
	let l = listing(L + 1);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(NextListingId::<T>::get() == L + 2, "listing ids are used once");
		sx::check(l.is_some(), "the listing is stored under its id");
		let (seller, t, close, auc) = l.unwrap();
		sx::check(seller == who && t == tokens && auc == auction, "the listing says what was asked");
		sx::check(close == now + dur.unwrap_or(1000), "the listing ends after the requested duration");
		sx::check(mkt.is_none() || RegisteredMarketplaces::<T>::contains_key(1), "only registered marketplaces take a share");
		let rs = match Listings::<T>::get(L + 1) {
			Some(Listing::FixedPrice(l)) => {
				sx::check(l.fixed_price == price && l.payment_asset == PAY, "the listing carries the price");
				l.royalties_schedule
			},
			Some(Listing::Auction(l)) => {
				sx::check(l.reserve_price == price && l.payment_asset == PAY, "the listing carries the reserve price");
				l.royalties_schedule
			},
			None => return,
		};
		let t: u64 = rs.entitlements.iter().map(|(_, p)| p.deconstruct() as u64).sum();
		sx::check(t <= 1_000_000, "royalties, network fee and marketplace share never exceed the price");
		sx::check(FeeTo::<T>::get().is_none() || rs.entitlements.iter().any(|(a, p)| *a == acc(7) && p.deconstruct() == 5_000), "the network fee is part of every listing");
	} else {
		sx::reach("err");
		sx::check(l.is_none() && NextListingId::<T>::get() == L + 1, "a refused listing leaves nothing behind");
	}
}
#[no_mangle]
pub extern "C" fn h_sell_nft() {
	sell(true)
}
#[no_mangle]
pub extern "C" fn h_sell_sft() {
	sell(false)
}
#[no_mangle]
pub extern "C" fn h_price() {
	let w = world(K::Fixed, true, 1, 0, false, false);
	let who = if sx::bool() { acc(0) } else { any_acc() };
	let p = sx::u128();
	let r = with_layer(|| Pallet::<T>::update_fixed_price(signed!(who), L, p));
	inv();
	let Some(Listing::FixedPrice(l)) = Listings::<T>::get(L) else { return sx::check(false, "the listing stays open") };
	if r.is_ok() {
		sx::reach("ok");
		sx::check(who == acc(0) && l.fixed_price == p, "only the seller changes the price");
	} else {
		sx::reach("err");
		sx::check(l.fixed_price == w.price, "a refused change keeps the price");
	}
}
/// Offers: making, withdrawing, accepting.
fn offer(k: K, op: u8, n: u32, b: bool) {
	let w = world(k, true, n, 0, b, op != 0);
	let who = pick_acc(3);
	let amount = sx::u128();
	let s = sx::u32();
	sx::assume(s < 4);
	let total = worth();
	let (b0, s0) = (w.offer.map_or(0, |o| Ledger::held(PAY, &o.0) + Ledger::bal(PAY, &o.0)), Ledger::bal(PAY, &acc(0)));
	let r = with_layer(|| match op {
		0 => Pallet::<T>::make_simple_offer(signed!(who), (COL, s), amount, PAY, None),
		1 => Pallet::<T>::cancel_offer(signed!(who), O),
		_ => Pallet::<T>::accept_offer(signed!(who), O),
	});
	inv();
	sx::check(worth() == total, "offers move exactly their amount");
	if r.is_ok() {
		sx::reach("ok");
		match op {
			0 => {
				let Some(OfferType::Simple(o)) = Offers::<T>::get(O + 1) else { return sx::check(false, "the offer is stored") };
				sx::check(o.buyer == who && o.amount == amount && o.token_id == (COL, s) && amount > 0, "the offer says what was asked");
				sx::check(owner(s).is_some() && owner(s) != Some(who), "offers are for somebody else's existing token");
				sx::check(NextOfferId::<T>::get() == O + 2, "offer ids are used once");
				sx::check(k != K::Auction || s >= n, "no offers on a token in auction");
			},
			1 => {
				sx::check(w.offer.unwrap().0 == who && Offers::<T>::get(O).is_none(), "only its maker withdraws an offer");
			},
			_ => {
				let (buyer, a) = w.offer.unwrap();
				sx::check(who == acc(0) && Offers::<T>::get(O).is_none(), "only the owner accepts an offer");
				sx::check(owner(0) == Some(buyer) && lock(0).is_none(), "the buyer gets the token");
				sx::check(Ledger::held(PAY, &buyer) + Ledger::bal(PAY, &buyer) == b0 - a && Ledger::bal(PAY, &acc(0)) == s0 + a, "the offered amount goes from buyer to seller");
			},
		}
	} else {
		sx::reach("err");
		sx::check(Offers::<T>::get(O).is_some() == (op != 0) && NextOfferId::<T>::get() == O + 1, "a refused call changes no offer");
		sx::check(op != 1 || w.offer.unwrap().0 != who, "an offer can always be withdrawn");
	}
}
#[no_mangle]
pub extern "C" fn h_offer_make() {
	offer(K::Fixed, 0, 1, false)
}
#[no_mangle]
pub extern "C" fn h_offer_make_auction() {
	offer(K::Auction, 0, 1, false)
}
#[no_mangle]
pub extern "C" fn h_offer_cancel() {
	offer(K::None, 1, 0, false)
}
#[no_mangle]
pub extern "C" fn h_offer_accept() {
	offer(K::None, 2, 0, false)
}
#[no_mangle]
pub extern "C" fn h_offer_accept_fixed() {
	offer(K::Fixed, 2, 2, false)
}
#[no_mangle]
pub extern "C" fn h_offer_accept_auction() {
	let b = sx::bool();
	offer(K::Auction, 2, 2, b)
}
/// Buying several listings at once: each at most once, all or nothing.
#[no_mangle]
pub extern "C" fn h_multi() {
	let w = world(K::Fixed, true, 1, 0, false, false);
	let who = pick_acc(3);
	let (x, y) = (sx::u128(), sx::u128());
	let two = sx::bool();
	let b0 = Ledger::bal(PAY, &who);
	let r = with_layer(|| Pallet::<T>::buy_multi(signed!(who), if two { bv(&[x, y]) } else { bv(&[x]) }));
	inv();
	if r.is_ok() {
		sx::reach("ok");
		sx::check(!two && x == L, "a listing is bought once");
		sx::check(Ledger::bal(PAY, &who) == b0 - w.price && owner(0) == Some(who), "the buyer pays and gets the token");
	} else {
		sx::reach("err");
		sx::check(Listings::<T>::get(L).is_some() && Ledger::bal(PAY, &who) == b0, "a failed purchase changes nothing");
	}
}
/// Registering a marketplace; choosing the fee receiver.
#[no_mangle]
pub extern "C" fn h_market() {
	let next = sx::u32();
	NextMarketplaceId::<T>::put(next);
	let who = pick_acc(2);
	let (id, p) = (sx::u32(), sx::u32());
	let had = sx::bool();
	if had {
		RegisteredMarketplaces::<T>::insert(id, Marketplace { account: acc(8), entitlement: Permill::from_parts(7) });
		sx::assume(id < next);
	}
	let to = if sx::bool() { Some(acc(4)) } else { None };
	let r = with_layer(|| Pallet::<T>::register_marketplace(signed!(who), to, Permill::from_parts(p)));
	if r.is_ok() {
		sx::reach("ok");
		let m = RegisteredMarketplaces::<T>::get(next);
		sx::check(NextMarketplaceId::<T>::get() == next + 1 && next < u32::MAX, "marketplace ids are used once");
		sx::check(m == Some(Marketplace { account: to.unwrap_or(who), entitlement: Permill::from_parts(p) }), "the marketplace is registered as asked");
		sx::check(!had || RegisteredMarketplaces::<T>::get(id).unwrap().account == acc(8), "other marketplaces stay");
	} else {
		sx::reach("err");
		sx::check(NextMarketplaceId::<T>::get() == next, "failure changes nothing");
	}
	let root = sx::bool();
	FeeTo::<T>::put(None::<Acc>);
	let r = Pallet::<T>::set_fee_to(if root { vstub::system::RawOrigin::Root.into() } else { signed!(who) }, Some(acc(4)));
	sx::check(r.is_ok() == root && FeeTo::<T>::get().is_some() == root, "only root chooses the fee receiver");
}
