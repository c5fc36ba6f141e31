#![allow(non_snake_case, deprecated)]
use frame_support::BoundedVec;
use hrt::abi::{self, num, tuple, wa, wh, wn, wu, P};
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_evm_precompiles_marketplace::*;
use pallet_marketplace::types::*;
use pallet_marketplace::{Pallet as Mkt, *};
use pallet_nft::{CollectionInfo, CollectionInformation, TokenLocks, TokenOwnership};
use pallet_sft::{SftCollectionInfo, SftCollectionInformation, SftTokenBalance, SftTokenInformation};
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_primitives::*;
use sp_core::{H160, H256, U256};
use sp_runtime::{DispatchError, Permill};
use vstub::evm::*;

calls!(T, RtCall { Mkt: pallet_marketplace::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	MPid: PalletId = PalletId(*b"marketpl");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 4;
	DefFee: Option<PalletId> = None;
	NetFee: Permill = Permill::from_parts(5_000);
	Dur: u32 = 1000;
	MaxList: u32 = 3;
	MaxMulti: u32 = 3;
	MaxOff: u32 = 3;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_sft::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = MintLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = Rec;
}
impl pallet_marketplace::Config for T {
	type RuntimeCall = RtCall;
	type DefaultListingDuration = Dur;
	type RuntimeEvent = ();
	type DefaultFeeTo = DefFee;
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type SFTExt = pallet_sft::Pallet<T>;
	type PalletId = MPid;
	type NetworkFeePercentage = NetFee;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxList;
	type MaxListingsPerMultiBuy = MaxMulti;
	type MaxOffers = MaxOff;
}

const COL: u32 = (7 << 10) | 100;
const SCOL: u32 = (8 << 10) | 100;
const PAY: u32 = 3;
const L: u128 = 5;
const O: u64 = 9;
const ALL: [u8; 4] = [0, 1, 2, 7];
const ERC20: [u8; 4] = [0xCC; 4];
const ERC721: [u8; 4] = [0xAA; 4];
const ERC1155: [u8; 4] = [0xBB; 4];
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
fn bv<X: Clone, N: frame_support::traits::Get<u32>>(v: &[X]) -> BoundedVec<X, N> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn here() -> H160 {
	H160([9; 20])
}
/// A collection with NFT tokens 0 and 1 of account 0 and 2 of account 1; SFT token 0 of account 0; marketplace 1 of
/// account 7; arbitrary balances.
fn world() {
	CollectionInfo::<T>::insert(
		COL,
		CollectionInformation::<Acc, MaxTok, StrLim> {
			owner: acc(6),
			name: bv(b"n"),
			metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: OriginChain::Root,
			next_serial_number: 3,
			collection_issuance: 3,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[0, 1]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[2]) }]),
		},
	);
	SftCollectionInfo::<T>::insert(
		SCOL,
		SftCollectionInformation::<Acc, StrLim> { collection_owner: acc(6), collection_name: bv(b"c"), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, origin_chain: OriginChain::Root, next_serial_number: 1 },
	);
	pallet_sft::TokenInfo::<T>::insert((SCOL, 0), SftTokenInformation::<Acc, StrLim, MaxOwners> { token_name: bv(b"t"), max_issuance: None, token_issuance: 1000, owned_tokens: bv(&[(acc(0), SftTokenBalance::new(1000, 0))]) });
	RegisteredMarketplaces::<T>::insert(1, Marketplace { account: acc(7), entitlement: Permill::from_parts(100_000) });
	NextMarketplaceId::<T>::put(2);
	NextListingId::<T>::put(L + 1);
	NextOfferId::<T>::put(O + 1);
	Ledger::create(PAY, u128::MAX);
	let mut left = u128::MAX;
	for a in ALL {
		let b = sx::u128();
		sx::assume(b <= left);
		left -= b;
		Ledger::set(PAY, &acc(a), b);
	}
	set_block(100);
}
/// Listing L of account 0 (NFT tokens 0 and 1, or 10 of the SFT): for a fixed price, or an auction with or without a bid of account 1.
fn listed() -> bool {
	let nft = sx::bool();
	let tokens = if nft { ListingTokens::Nft(NftListing { collection_id: COL, serial_numbers: bv(&[0, 1]) }) } else { ListingTokens::Sft(SftListing { collection_id: SCOL, serial_numbers: bv(&[(0, 10)]) }) };
	let auction = sx::bool();
	let mkt = if sx::bool() { Some(1) } else { None };
	let price = sx::u128();
	let l = if auction {
		Listing::Auction(AuctionListing { payment_asset: PAY, reserve_price: price, close: 200, seller: acc(0), tokens: tokens.clone(), royalties_schedule: RoyaltiesSchedule { entitlements: bv(&[]) }, marketplace_id: mkt })
	} else {
		Listing::FixedPrice(FixedPriceListing { payment_asset: PAY, fixed_price: price, close: 200, buyer: if sx::bool() { Some(acc(1)) } else { None }, seller: acc(0), tokens: tokens.clone(), royalties_schedule: RoyaltiesSchedule { entitlements: bv(&[]) }, marketplace_id: mkt })
	};
	Listings::<T>::insert(L, l);
	ListingEndSchedule::<T>::insert(200, L, true);
	OpenCollectionListings::<T>::insert(if nft { COL } else { SCOL }, L, true);
	if nft {
		for s in 0..2u32 {
			TokenLocks::<T>::insert((COL, s), TokenLockReason::Listed(L));
		}
	} else {
		pallet_sft::TokenInfo::<T>::insert((SCOL, 0), SftTokenInformation::<Acc, StrLim, MaxOwners> { token_name: bv(b"t"), max_issuance: None, token_issuance: 1000, owned_tokens: bv(&[(acc(0), SftTokenBalance::new(990, 10))]) });
	}
	auction
}
fn offered() {
	let a = sx::u128();
	sx::assume(a > 0);
	let mkt = if sx::bool() { Some(1) } else { None };
	Offers::<T>::insert(O, OfferType::Simple(SimpleOffer { token_id: (COL, 0), asset_id: PAY, amount: a, buyer: acc(1), marketplace_id: mkt }));
	TokenOffers::<T>::insert((COL, 0), BoundedVec::try_from(vec![O]).ok().unwrap());
	Held::insert(PAY, acc(1), a);
}
fn word(v: &[u8], k: usize) -> [u8; 32] {
	let mut w = [0; 32];
	w.copy_from_slice(&v[k * 32..k * 32 + 32]);
	w
}
fn exec(h: &mut Handle) -> PrecompileResult {
	with_layer(|| <MarketplacePrecompile<T> as Precompile>::execute(h))
}
/// Run the precompile, and the pallet's own call from the same state: they must agree in success and in everything
/// they leave in storage. Without `f` the precompile must refuse.
fn twin<R>(h: &mut Handle, f: Option<impl FnOnce() -> Result<R, DispatchError>>) -> Option<(PrecompileOutput, R)> {
	let (r, a) = capture(|| exec(h));
	match f {
		None => {
			sx::check(r.is_err() && a.none(), "what cannot be represented is refused and changes nothing");
			sx::check(h.logs.is_empty(), "a refused call emits nothing");
			None
		},
		Some(f) => {
			let (d, b) = capture(|| with_layer(f));
			sx::check(r.is_ok() == d.is_ok(), "the call succeeds exactly if the same extrinsic of the caller does");
			sx::check(a.same(&b), "the call has exactly the effect of the same extrinsic of the caller");
			match (r, d) {
				(Ok(o), Ok(d)) => {
					sx::check(h.logs.len() == 1 && h.logs[0].address == here(), "a call that succeeds emits one event");
					Some((o, d))
				},
				_ => {
					sx::check(h.logs.is_empty(), "a refused call emits nothing");
					None
				},
			}
		},
	}
}
fn handle(c: &Acc, a: Action, ps: &[P]) -> Handle {
	Handle::new(here(), (*c).into(), abi::call(a.into(), ps))
}
fn logged(h: &Handle, topics: &[[u8; 32]], data: &[P]) -> bool {
	let t: Vec<H256> = topics.iter().map(|t| H256(*t)).collect();
	h.logs[0].topics == t && h.logs[0].data == tuple(data)
}
/// An address: that of an id under the prefix, or one that is none.
fn addr(p: &[u8; 4], id: u32) -> ([u8; 32], Option<u32>) {
	match sx::choose(3) {
		0 => (wh(T::runtime_id_to_evm_id(id, p).into()), Some(id)),
		1 => {
			let n = sx::u32();
			(wh(T::runtime_id_to_evm_id(n, p).into()), Some(n))
		},
		_ => {
			let b: [u8; 20] = sx::bytes();
			sx::assume(b[..4] != p[..]);
			(wh(H160(b)), None)
		},
	}
}
/// The account an address argument names; the zero address names none.
fn opt_acc() -> ([u8; 32], Option<Acc>) {
	if sx::bool() {
		let a = pick_acc(3);
		(wa(&a), Some(a))
	} else {
		([0; 32], None)
	}
}
fn mkt_arg() -> (U256, Option<Option<u32>>) {
	let (m, v) = num(32);
	(m, v.map(|v| if v == 0 { None } else { Some(v as u32) }))
}
/// Registering records the caller's marketplace.
#[no_mangle]
pub extern "C" fn h_register() {
	world();
	let c = pick_acc(3);
	let (aw, a) = opt_acc();
	let (e, ev) = num(32);
	let mut h = handle(&c, Action::RegisterMarketplace, &[P::W(aw), P::W(wu(e))]);
	let f = ev.map(|e| move || Mkt::<T>::do_register_marketplace(c, a, Permill::from_parts(e as u32)));
	match twin(&mut h, f) {
		Some((o, id)) => {
			sx::check(o.output == wn(id as u128), "the answer is the new marketplace");
			sx::check(logged(&h, &[SELECTOR_LOG_MARKETPLACE_REGISTER, wa(&c), wn(id as u128)], &[P::W(aw)]), "the event names caller, marketplace and account");
			sx::reach("registered");
		},
		None => sx::reach("refused"),
	}
}
fn serials(n: usize) -> (Vec<[u8; 32]>, Option<Vec<u32>>) {
	let mut v = vec![];
	let mut s = Some(vec![]);
	for k in 0..n {
		// one of them may be anything
		let (w, x) = if k == 0 { num(32) } else { (U256::from(k as u32), Some(k as u128)) };
		v.push(wu(w));
		match (&mut s, x) {
			(Some(s), Some(x)) => s.push(x as u32),
			_ => s = None,
		}
	}
	if n > 3 {
		s = None;
	}
	(v, s)
}
fn quantities(n: usize) -> (Vec<[u8; 32]>, Option<Vec<u128>>) {
	let mut v = vec![];
	let mut s = Some(vec![]);
	for _ in 0..n {
		let (w, x) = num(128);
		v.push(wu(w));
		match (&mut s, x) {
			(Some(s), Some(x)) => s.push(x),
			_ => s = None,
		}
	}
	(v, s)
}
fn dur() -> (U256, Option<Option<u32>>) {
	let (d, v) = num(32);
	(d, v.map(|v| if v == 0 { None } else { Some(v as u32) }))
}
fn nft_tokens(c: u32, s: &[u32]) -> ListingTokens<T> {
	ListingTokens::Nft(NftListing { collection_id: c, serial_numbers: bv(s) })
}
fn sft_tokens(c: u32, s: &[u32], q: &[u128]) -> ListingTokens<T> {
	let v: Vec<(u32, u128)> = s.iter().copied().zip(q.iter().copied()).collect();
	ListingTokens::Sft(SftListing { collection_id: c, serial_numbers: bv(&v) })
}
fn sell(nft: bool, n: usize) {
	world();
	let c = pick_acc(3);
	let (cw, col) = if nft { addr(&ERC721, COL) } else { addr(&ERC1155, SCOL) };
	let (sw, ss) = serials(n);
	let m = if nft { n } else { [n, 0, 2][sx::choose(3) as usize] };
	let (qw, qs) = if nft { (vec![], Some(vec![])) } else { quantities(m) };
	let (bw, buyer) = opt_acc();
	let (pw, pay) = addr(&ERC20, PAY);
	let (price, pv) = num(128);
	let (d, dv) = dur();
	let (mk, mv) = mkt_arg();
	let f = match (col, &ss, &qs, pay, pv, dv, mv) {
		(Some(col), Some(ss), Some(qs), Some(pay), Some(p), Some(d), Some(mk)) if nft || m == n => {
			let t = if nft { nft_tokens(col, ss) } else { sft_tokens(col, ss, qs) };
			Some(move || Mkt::<T>::do_sell(c, t, buyer, pay, p, d, mk).map(|id| (id, p, mk)))
		},
		_ => None,
	};
	let rest = [P::W(bw), P::W(pw), P::W(wu(price)), P::W(wu(d)), P::W(wu(mk))];
	let mut ps = vec![P::W(cw), P::A(sw.clone())];
	if !nft {
		ps.push(P::A(qw.clone()));
	}
	ps.extend_from_slice(&rest);
	let act = if !nft { Action::SellSft } else if sx::bool() { Action::SellNft } else { Action::SellNftWithMarketplaceId };
	let mut h = handle(&c, act, &ps);
	match twin(&mut h, f) {
		Some((o, (id, p, mk))) => {
			sx::check(o.output == wn(id), "the answer is the new listing");
			let sel = if nft { SELECTOR_LOG_FIXED_PRICE_SALE_LIST_NFT } else { SELECTOR_LOG_FIXED_PRICE_SALE_LIST_SFT };
			let mut data = vec![P::A(sw), P::W(cw), P::W(wn(mk.unwrap_or(0) as u128))];
			if !nft {
				data.push(P::A(qw));
			}
			sx::check(logged(&h, &[sel, wa(&c), wn(id), wn(p)], &data), "the event names seller, listing, price, tokens and marketplace");
			sx::reach("listed");
		},
		None => sx::reach("refused"),
	}
}
/// A sale through the precompile is the caller's own listing with these terms.
#[no_mangle]
pub extern "C" fn h_sell_nft() {
	sell(true, 2);
}
/// As above, of no token, one, and more than a listing can hold.
#[no_mangle]
pub extern "C" fn h_sell_nft_n() {
	sell(true, [0, 1, 4][sx::choose(3) as usize]);
}
/// As above, for an amount of a semi-fungible token.
#[no_mangle]
pub extern "C" fn h_sell_sft() {
	sell(false, 1);
}
fn auction(nft: bool, n: usize) {
	world();
	let c = pick_acc(3);
	let (cw, col) = if nft { addr(&ERC721, COL) } else { addr(&ERC1155, SCOL) };
	let (sw, ss) = serials(n);
	let m = if nft { n } else { [n, 0, 2][sx::choose(3) as usize] };
	let (qw, qs) = if nft { (vec![], Some(vec![])) } else { quantities(m) };
	let (pw, pay) = addr(&ERC20, PAY);
	let (price, pv) = num(128);
	let (d, dv) = dur();
	let (mk, mv) = mkt_arg();
	let f = match (col, &ss, &qs, pay, pv, dv, mv) {
		(Some(col), Some(ss), Some(qs), Some(pay), Some(p), Some(d), Some(mk)) if nft || m == n => {
			let t = if nft { nft_tokens(col, ss) } else { sft_tokens(col, ss, qs) };
			Some(move || Mkt::<T>::do_auction(c, t, pay, p, d, mk).map(|id| (col, id, p, mk)))
		},
		_ => None,
	};
	let mut ps = vec![P::W(cw), P::A(sw.clone())];
	if !nft {
		ps.push(P::A(qw));
	}
	ps.extend_from_slice(&[P::W(pw), P::W(wu(price)), P::W(wu(d)), P::W(wu(mk))]);
	let act = if !nft { Action::AuctionSft } else if sx::bool() { Action::AuctionNft } else { Action::AuctionNftWithMarketplaceId };
	let mut h = handle(&c, act, &ps);
	match twin(&mut h, f) {
		Some((_, (col, id, p, mk))) => {
			let sel = if nft { SELECTOR_LOG_AUCTION_OPEN_NFT } else { SELECTOR_LOG_AUCTION_OPEN_SFT };
			sx::check(logged(&h, &[sel, wn(col as u128), wn(id), wn(p)], &[P::W(wa(&c)), P::A(sw), P::W(wn(mk.unwrap_or(0) as u128))]), "the event names collection, auction, price, seller, tokens and marketplace");
			sx::reach("listed");
		},
		None => sx::reach("refused"),
	}
}
/// An auction through the precompile is the caller's own auction with these terms.
#[no_mangle]
pub extern "C" fn h_auction_nft() {
	auction(true, 2);
}
/// As above, of no token, one, and more than a listing can hold.
#[no_mangle]
pub extern "C" fn h_auction_nft_n() {
	auction(true, [0, 1, 4][sx::choose(3) as usize]);
}
/// As above, for an amount of a semi-fungible token.
#[no_mangle]
pub extern "C" fn h_auction_sft() {
	auction(false, 1);
}
fn what() -> (u32, Vec<[u8; 32]>, Option<u32>, Acc, u128) {
	match Listings::<T>::get(L).unwrap() {
		Listing::FixedPrice(l) => (l.tokens.get_collection_id(), tok(&l.tokens), l.marketplace_id, l.seller, l.fixed_price),
		Listing::Auction(l) => (l.tokens.get_collection_id(), tok(&l.tokens), l.marketplace_id, l.seller, l.reserve_price),
	}
}
fn tok(t: &ListingTokens<T>) -> Vec<[u8; 32]> {
	match t {
		ListingTokens::Nft(t) => t.serial_numbers.iter().map(|s| wn(*s as u128)).collect(),
		ListingTokens::Sft(t) => t.serial_numbers.iter().map(|(s, _)| wn(*s as u128)).collect(),
	}
}
/// A listing id argument: L, or any number.
fn lid() -> (U256, Option<u128>) {
	if sx::bool() { (U256::from(L), Some(L)) } else { num(128) }
}
fn oid() -> (U256, Option<u64>) {
	if sx::bool() {
		(U256::from(O), Some(O))
	} else {
		let (x, v) = num(64);
		(x, v.map(|v| v as u64))
	}
}
/// Buying, and changing the price of, a listing are the caller's own acts on exactly that listing.
#[no_mangle]
pub extern "C" fn h_buy() {
	world();
	listed();
	let c = pick_acc(3);
	let (col, toks, mk, seller, price) = what();
	let (x, id) = lid();
	let mut h = handle(&c, Action::Buy, &[P::W(wu(x))]);
	match twin(&mut h, id.map(|id| move || Mkt::<T>::do_buy(c, id).map(|_| ()))) {
		Some(_) => {
			sx::check(id == Some(L) && logged(&h, &[SELECTOR_LOG_FIXED_PRICE_SALE_COMPLETE, wn(col as u128), wn(L), wn(price)], &[P::W(wa(&seller)), P::A(toks), P::W(wn(mk.unwrap_or(0) as u128))]), "the event names collection, listing, price, seller, tokens and marketplace");
			sx::reach("bought");
		},
		None => sx::reach("refused"),
	}
}
/// As above, for the price.
#[no_mangle]
pub extern "C" fn h_update() {
	world();
	listed();
	let c = pick_acc(3);
	let (col, toks, mk, _, _) = what();
	let ((x, id), (p, pv)) = (lid(), num(128));
	let mut h = handle(&c, Action::UpdateFixedPrice, &[P::W(wu(x)), P::W(wu(p))]);
	let f = match (id, pv) {
		(Some(id), Some(p)) => Some(move || Mkt::<T>::do_update_fixed_price(c, id, p)),
		_ => None,
	};
	match twin(&mut h, f) {
		Some(_) => {
			sx::check(logged(&h, &[SELECTOR_LOG_FIXED_PRICE_SALE_UPDATE, wn(col as u128), wn(L), wu(p)], &[P::W(wa(&c)), P::A(toks), P::W(wn(mk.unwrap_or(0) as u128))]), "the event names collection, listing, price, seller, tokens and marketplace");
			sx::reach("changed");
		},
		None => sx::reach("refused"),
	}
}
/// A bid is the caller's own, on that auction, of that amount.
#[no_mangle]
pub extern "C" fn h_bid() {
	world();
	let auction = listed();
	if auction && sx::bool() {
		let a = sx::u128();
		ListingWinningBid::<T>::insert(L, (acc(1), a));
		Held::insert(PAY, acc(1), a);
	}
	let c = pick_acc(3);
	let (_, _, mk, _, _) = what();
	let ((x, id), (p, pv)) = (lid(), num(128));
	let mut h = handle(&c, Action::Bid, &[P::W(wu(x)), P::W(wu(p))]);
	let f = match (id, pv) {
		(Some(id), Some(p)) => Some(move || Mkt::<T>::do_bid(c, id, p)),
		_ => None,
	};
	match twin(&mut h, f) {
		Some(_) => {
			sx::check(logged(&h, &[SELECTOR_LOG_BID, wa(&c), wn(L), wu(p)], &[P::W(wn(mk.unwrap_or(0) as u128))]), "the event names bidder, auction, amount and marketplace");
			sx::reach("bid");
		},
		None => sx::reach("refused"),
	}
}
/// Cancelling is the caller's own act on that listing.
#[no_mangle]
pub extern "C" fn h_cancel() {
	world();
	let auction = listed();
	let c = pick_acc(3);
	let (col, toks, mk, _, _) = what();
	let (x, id) = lid();
	let mut h = handle(&c, Action::CancelSale, &[P::W(wu(x))]);
	match twin(&mut h, id.map(|id| move || Mkt::<T>::do_cancel_sale(c, id))) {
		Some(_) => {
			let sel = if auction { SELECTOR_LOG_AUCTION_CLOSE } else { SELECTOR_LOG_FIXED_PRICE_SALE_CLOSE };
			sx::check(logged(&h, &[sel, wn(col as u128), wn(L)], &[P::W(wa(&c)), P::A(toks), P::W(wn(mk.unwrap_or(0) as u128))]), "the event names collection, listing, seller, tokens and marketplace");
			sx::reach("cancelled");
		},
		None => sx::reach("refused"),
	}
}
/// An offer is the caller's own, on that token, of that amount of that asset.
#[no_mangle]
pub extern "C" fn h_offer() {
	world();
	let c = pick_acc(3);
	let (cw, col) = addr(&ERC721, COL);
	let ((s, sv), (p, pv)) = (num(32), num(128));
	let (pw, pay) = addr(&ERC20, PAY);
	let (mk, mv) = mkt_arg();
	let f = match (col, sv, pv, pay, mv) {
		(Some(col), Some(s), Some(p), Some(pay), Some(mk)) => Some(move || Mkt::<T>::do_make_simple_offer(c, (col, s as u32), p, pay, mk).map(|id| (id, col, mk))),
		_ => None,
	};
	let act = if sx::bool() { Action::MakeSimpleOffer } else { Action::MakeSimpleOfferWithMarketplaceId };
	let mut h = handle(&c, act, &[P::W(cw), P::W(wu(s)), P::W(wu(p)), P::W(pw), P::W(wu(mk))]);
	match twin(&mut h, f) {
		Some((o, (id, col, mk))) => {
			sx::check(o.output == wn(id as u128), "the answer is the new offer");
			sx::check(logged(&h, &[SELECTOR_LOG_OFFER, wn(id as u128), wa(&c)], &[P::W(wn(col as u128)), P::W(wu(s)), P::W(wn(mk.unwrap_or(0) as u128))]), "the event names offer, buyer, token and marketplace");
			sx::reach("offered");
		},
		None => sx::reach("refused"),
	}
}
fn close_offer(accept: bool) {
	world();
	offered();
	let c = pick_acc(3);
	let OfferType::Simple(of) = Offers::<T>::get(O).unwrap();
	let (x, id) = oid();
	let mut h = handle(&c, if accept { Action::AcceptOffer } else { Action::CancelOffer }, &[P::W(wu(x))]);
	match twin(&mut h, id.map(|id| move || if accept { Mkt::<T>::do_accept_offer(c, id) } else { Mkt::<T>::do_cancel_offer(c, id) })) {
		Some(_) => {
			let data = [P::W(wn(COL as u128)), P::W(wn(0)), P::W(wn(of.marketplace_id.unwrap_or(0) as u128))];
			let ok = if accept { logged(&h, &[SELECTOR_LOG_OFFER_ACCEPT, wn(O as u128), wn(of.amount), wa(&c)], &data) } else { logged(&h, &[SELECTOR_LOG_OFFER_CANCEL, wn(O as u128), wa(&c)], &data) };
			sx::check(ok, "the event names offer, caller, token and marketplace");
			sx::reach("closed");
		},
		None => sx::reach("refused"),
	}
}
/// Accepting an offer is the caller's own act on that offer.
#[no_mangle]
pub extern "C" fn h_accept_offer() {
	close_offer(true);
}
/// As above, for cancelling it.
#[no_mangle]
pub extern "C" fn h_cancel_offer() {
	close_offer(false);
}
/// The views answer what the marketplace holds, and change nothing.
#[no_mangle]
pub extern "C" fn h_views() {
	world();
	listed();
	offered();
	let c = acc(2);
	let (col, toks, _, _, price) = what();
	let (x, id) = num(32);
	let mut h = handle(&c, Action::GetMarketplaceAccount, &[P::W(wu(x))]);
	let (r, a) = capture(|| exec(&mut h));
	match r {
		Ok(o) => {
			sx::check(id == Some(1) && o.output == wa(&acc(7)), "the marketplace's account");
			sx::reach("account");
		},
		Err(_) => sx::check(id != Some(1), "every marketplace is answered for"),
	}
	sx::check(a.none(), "a view writes nothing");
	let (x, id) = lid();
	let auction = matches!(Listings::<T>::get(L), Some(Listing::Auction(_)));
	let mut h = handle(&c, Action::GetListingFromId, &[P::W(wu(x))]);
	let (r, a) = capture(|| exec(&mut h));
	match r {
		Ok(o) => {
			let name: &[u8] = if auction { b"auction_listing_for_nft" } else { b"fixed_price_listing_for_nft" };
			sx::check(id == Some(L) && o.output == tuple(&[P::B(name.to_vec()), P::W(wn(col as u128)), P::A(toks), P::W(wn(price)), P::W(wn(PAY as u128))]), "the listing's kind, collection, tokens, price and asset");
			sx::reach("listing");
		},
		Err(_) => sx::check(id != Some(L), "every listing is answered for"),
	}
	sx::check(a.none(), "a view writes nothing");
	let (x, id) = oid();
	let OfferType::Simple(of) = Offers::<T>::get(O).unwrap();
	let mut h = handle(&c, Action::GetOfferFromId, &[P::W(wu(x))]);
	let (r, a) = capture(|| exec(&mut h));
	match r {
		Ok(o) => sx::check(id == Some(O) && o.output == tuple(&[P::W(wn(COL as u128)), P::W(wn(0)), P::W(wn(of.amount)), P::W(wa(&acc(1)))]), "the offer's token, amount and buyer"),
		Err(_) => sx::check(id != Some(O), "every offer is answered for"),
	}
	sx::check(a.none(), "a view writes nothing");
}
/// A static call changes nothing, and no function takes value, whatever the function and the input.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	world();
	listed();
	offered();
	let k = sx::choose(18) as usize;
	let sel: u32 = match k {
		15 => Action::GetMarketplaceAccount.into(),
		16 => Action::GetListingFromId.into(),
		17 => Action::GetOfferFromId.into(),
		_ => match k { 0 => Action::RegisterMarketplace, 1 => Action::SellNft, 2 => Action::SellNftWithMarketplaceId, 3 => Action::SellSft, 4 => Action::UpdateFixedPrice, 5 => Action::Buy, 6 => Action::AuctionNft, 7 => Action::AuctionNftWithMarketplaceId, 8 => Action::AuctionSft, 9 => Action::Bid, 10 => Action::CancelSale, 11 => Action::MakeSimpleOffer, 12 => Action::MakeSimpleOfferWithMarketplaceId, 13 => Action::CancelOffer, _ => Action::AcceptOffer }.into(),
	};
	let mut input = sel.to_be_bytes().to_vec();
	// arguments that most functions can do something with
	let c = pick_acc(2);
	let nft = wh(T::runtime_id_to_evm_id(COL, &ERC721).into());
	let pay = wh(T::runtime_id_to_evm_id(PAY, &ERC20).into());
	match k {
		0 => input.extend_from_slice(&tuple(&[P::W([0; 32]), P::W(wn(5))])),
		1 | 2 => input.extend_from_slice(&tuple(&[P::W(nft), P::A(vec![wn(2)]), P::W([0; 32]), P::W(pay), P::W(wn(5)), P::W(wn(9)), P::W([0; 32])])),
		3 => input.extend_from_slice(&tuple(&[P::W(wh(T::runtime_id_to_evm_id(SCOL, &ERC1155).into())), P::A(vec![[0; 32]]), P::A(vec![wn(2)]), P::W([0; 32]), P::W(pay), P::W(wn(5)), P::W(wn(9)), P::W([0; 32])])),
		6 | 7 => input.extend_from_slice(&tuple(&[P::W(nft), P::A(vec![wn(2)]), P::W(pay), P::W(wn(5)), P::W(wn(9)), P::W(wn(1))])),
		8 => input.extend_from_slice(&tuple(&[P::W(wh(T::runtime_id_to_evm_id(SCOL, &ERC1155).into())), P::A(vec![[0; 32]]), P::A(vec![wn(2)]), P::W(pay), P::W(wn(5)), P::W(wn(9)), P::W(wn(1))])),
		11 | 12 => input.extend_from_slice(&tuple(&[P::W(nft), P::W(wn(2)), P::W(wn(5)), P::W(pay), P::W(wn(1))])),
		13 | 14 | 17 => input.extend_from_slice(&tuple(&[P::W(wn(O as u128))])),
		15 => input.extend_from_slice(&tuple(&[P::W(wn(1))])),
		_ => input.extend_from_slice(&tuple(&[P::W(wn(L)), P::W(wn(sx::u128()))])),
	}
	let view = k >= 15;
	let mut h = Handle::new(here(), c.into(), input);
	let stat = sx::bool();
	h.stat = stat;
	let v = sx::bool();
	if v {
		let x = sx::u128();
		sx::assume(x > 0);
		h.context.apparent_value = U256::from(x);
	}
	let (r, a) = capture(|| exec(&mut h));
	if stat || view {
		sx::check(a.none() && h.logs.is_empty(), "a static call changes nothing");
	}
	if v {
		sx::check(r.is_err() && a.none(), "no function takes value");
	}
	match (r.is_ok(), stat) {
		(true, true) => {
			sx::check(view, "only the views answer a static call");
			sx::reach("a static view");
		},
		(true, false) => sx::reach("a call"),
		_ => {},
	}
}
fn any_input(n: usize) {
	world();
	listed();
	offered();
	let mut v: Vec<u8> = sx::vec(n);
	if n >= 4 && sx::bool() {
		let k = sx::choose(6);
		let s: u32 = match k { 0 => Action::SellNft, 1 => Action::SellSft, 2 => Action::AuctionNft, 3 => Action::AuctionSft, 4 => Action::MakeSimpleOffer, _ => Action::Bid }.into();
		v[..4].copy_from_slice(&s.to_be_bytes());
	}
	let mut h = Handle::new(here(), pick_acc(2).into(), v);
	let (r, a) = capture(|| exec(&mut h));
	if r.is_err() {
		sx::check(a.none() && h.logs.is_empty(), "a reverted call changes nothing");
		sx::reach("reverted");
	} else {
		sx::reach("answered");
	}
}
/// Whatever the input, the call answers or reverts.
#[no_mangle]
pub extern "C" fn h_any_input() {
	any_input([0, 3, 4, 35, 36, 68][sx::choose(6) as usize]);
}
