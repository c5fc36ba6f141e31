#![allow(non_snake_case)]
use ethabi::Token;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_nft::{CollectionInfo, CollectionInformation, TokenLocks, TokenOwnership};
use pallet_nft_peg::*;
use seed_pallet_common::{EthereumEventSubscriber, NFTExt};
use seed_primitives::*;
use sp_core::{H160, U256};
use sp_runtime::traits::AccountIdConversion;

sys!(T);
konst! {
	MaxTok: u32 = 3;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	Para: u32 = 100;
	StrLim: u32 = 60;
	PegId: PalletId = PalletId(*b"py/nftpg");
	Delay: u32 = 5;
	MaxAddr: u32 = 2;
	MaxMint: u32 = 2;
	MaxCols: u32 = 2;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_nft_peg::Config for T {
	type RuntimeEvent = ();
	type PalletId = PegId;
	type DelayLength = Delay;
	type MaxAddresses = MaxAddr;
	type MaxTokensPerMint = MaxMint;
	type EthBridge = Rec;
	type NftPegWeightInfo = ();
	type MaxCollectionsPerWithdraw = MaxCols;
	type MaxSerialsPerWithdraw = MaxMint;
	type NFTMinter = pallet_nft::Pallet<T>;
}
type Peg = Pallet<T>;
type Info = CollectionInformation<Acc, MaxTok, StrLim>;
const COL: u32 = (7 << 10) | 100;
const COL2: u32 = (8 << 10) | 100;
const PEG: H160 = H160([0x31; 20]);
fn eth(n: u8) -> H160 {
	H160([n; 20])
}
const E1: u8 = 0x21;
const E2: u8 = 0x22;
fn bv<X: Clone, L: frame_support::traits::Get<u32>>(v: &[X]) -> BoundedVec<X, L> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn coll(id: u32, origin: OriginChain, held: &[(Acc, Vec<u32>)]) {
	let n: usize = held.iter().map(|h| h.1.len()).sum();
	CollectionInfo::<T>::insert(
		id,
		Info {
			owner: acc(5),
			name: bv(b"n"),
			metadata_scheme: MetadataScheme(bv(b"m")),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: origin,
			next_serial_number: 0,
			collection_issuance: n as u32,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&held.iter().filter(|h| !h.1.is_empty()).map(|(o, s)| TokenOwnership { owner: *o, owned_serials: bv(s) }).collect::<Vec<_>>()),
		},
	);
}
fn map(id: u32, e: u8) {
	EthToRootNft::<T>::insert(eth(e), id);
	RootNftToErc721::<T>::insert(id, eth(e));
}
fn owner_of(c: u32, s: u32) -> Option<Acc> {
	pallet_nft::Pallet::<T>::get_token_owner(&(c, s))
}
fn issued(c: u32) -> u32 {
	CollectionInfo::<T>::get(c).map(|i| i.collection_issuance).unwrap_or(0)
}
fn serials(n: usize) -> Vec<u32> {
	let mut v: Vec<u32> = vec![];
	for k in 0..n {
		let s = sx::u32();
		sx::assume(k == 0 || v[k - 1] < s);
		v.push(s);
	}
	v
}
fn blocked(id: u32) -> Option<(u32, Acc, Vec<u32>)> {
	BlockedTokens::<T>::get(id).map(|b| (b.collection_id, b.destination_address, b.serial_numbers.into_inner()))
}
fn eqb(a: &[u8], b: &[u8]) -> bool {
	a.len() == b.len() && a.iter().zip(b).fold(0u8, |x, (p, q)| x | (p ^ q)) == 0
}
fn ids(v: &[u32]) -> Token {
	Token::Array(v.iter().map(|s| Token::Uint(U256::from(*s))).collect())
}
fn setup() {
	ContractAddress::<T>::put(PEG);
	pallet_nft::NextCollectionId::<T>::put(20u32);
	NextBlockedMintId::<T>::put(sx::u32() >> 1);
}
/// Groups of (contract, token ids); account 0 or 1 receives.
fn deposit(shape: &[(u8, usize)], have: usize, have2: Option<usize>) {
	setup();
	let s1 = serials(have);
	coll(COL, OriginChain::Ethereum, &[(acc(1), s1.clone())]);
	map(COL, E1);
	if let Some(n) = have2 {
		coll(COL2, OriginChain::Ethereum, &[(acc(2), serials(n))]);
		map(COL2, E2);
	}
	let prefix = sx::u32();
	let to = pick_acc(2);
	let groups: Vec<(H160, Vec<u32>)> = shape.iter().map(|(e, n)| (eth(*e), (0..*n).map(|_| sx::u32()).collect())).collect();
	let data = ethabi::encode(&[
		Token::Uint(prefix.into()),
		Token::Array(groups.iter().map(|g| Token::Address(g.0)).collect()),
		Token::Array(groups.iter().map(|g| ids(&g.1)).collect()),
		Token::Address(to.into()),
	]);
	let b0 = NextBlockedMintId::<T>::get();
	let q = sx::u32();
	let before = [owner_of(COL, q), owner_of(COL2, q)];
	let i0 = [issued(COL), issued(COL2)];
	let r = Peg::on_event(&PEG, &data);
	let bs: Vec<_> = (b0..NextBlockedMintId::<T>::get()).filter_map(blocked).collect();
	sx::check(bs.len() as u32 == NextBlockedMintId::<T>::get() - b0 && bs.len() <= groups.len(), "every blocked record has an id of its own");
	let fits = groups.len() <= 2 && groups.iter().all(|g| g.1.len() <= 2);
	if prefix != 1 || !fits {
		sx::reach("refused");
		sx::check(r.is_err() && bs.is_empty() && issued(COL) == i0[0] && issued(COL2) == i0[1], "a message that is no deposit changes nothing");
		return;
	}
	if r.is_ok() {
		sx::reach("ok");
	} else {
		sx::reach("blocked");
	}
	sx::check(r.is_ok() == bs.is_empty(), "a deposit fails exactly if tokens were blocked");
	// the token q of each collection
	for (e, g) in [E1, E2].iter().map(|e| (*e, groups.iter().filter(|g| g.0 == eth(*e)).fold(false, |x, g| x | g.1.iter().fold(false, |y, s| y | (*s == q))))) {
		let k = (e == E2) as usize;
		let c = EthToRootNft::<T>::get(eth(e));
		if c.is_none() {
			sx::check(groups.iter().all(|g| g.0 != eth(e)), "a deposited contract has a collection");
			continue;
		}
		let c = c.unwrap();
		sx::check(RootNftToErc721::<T>::get(c) == Some(eth(e)), "the maps agree");
		let now = owner_of(c, q);
		if before[k].is_some() {
			sx::check(now == before[k], "tokens that exist keep their owner");
		} else if g {
			let held = bs.iter().fold(false, |x, b| x | (b.0 == c && b.1 == to && b.2.iter().fold(false, |y, s| y | (*s == q))));
			sx::check((now == Some(to)) != held && (now == Some(to) || now.is_none()), "every deposited token goes to the beneficiary or is kept for him to reclaim");
		} else {
			sx::check(now.is_none(), "nothing else is minted");
		}
		let i = CollectionInfo::<T>::get(c).unwrap();
		sx::check(i.origin_chain == OriginChain::Ethereum, "bridged collections are marked as such");
		if before[k].is_none() && c != COL && have2.is_none() {
			sx::check(c == (20 << 10) | 100 && i.owner == <Pid as frame_support::traits::Get<PalletId>>::get().into_account_truncating(), "a new contract gets a new collection");
		}
	}
}
macro_rules! dep {
	($($n:ident: $s:expr, $h:expr, $k:expr;)*) => { $(
		#[no_mangle]
		pub extern "C" fn $n() { deposit(&$s, $h, $k) }
	)* };
}
dep! {
	h_deposit_1: [(E1, 2)], 1, None;
	h_deposit_new: [(E2, 2)], 1, None;
	h_deposit_full: [(E1, 2)], 2, None;
	h_deposit_both: [(E1, 2), (E2, 1)], 2, Some(1);
	h_deposit_both_new: [(E1, 1), (E2, 1)], 3, None;
	h_deposit_twice: [(E1, 1), (E1, 1)], 2, None;
	h_deposit_none: [], 1, None;
	h_deposit_wide: [(E1, 0), (E2, 1), (E1, 1)], 0, None;
	h_deposit_long: [(E1, 3)], 0, None;
	h_deposit_all: [(E1, 2), (E2, 2)], 2, Some(2);
}
/// Messages that are too short or malformed are refused without a panic.
#[no_mangle]
pub extern "C" fn h_short() {
	setup();
	coll(COL, OriginChain::Ethereum, &[]);
	map(COL, E1);
	let n = [0usize, 1, 31, 32, 33, 64, 127][sx::choose(7) as usize];
	let r = Peg::on_event(&PEG, &sx::vec(n));
	sx::reach("ok");
	sx::check(r.is_err(), "a truncated message is refused");
}
/// Well-formed heads, but the lists do not match.
#[no_mangle]
pub extern "C" fn h_mismatch() {
	setup();
	coll(COL, OriginChain::Ethereum, &[]);
	map(COL, E1);
	let (a, b) = (sx::choose(3), sx::choose(3));
	sx::assume(a != b);
	let s = sx::u32();
	let data = ethabi::encode(&[Token::Uint(1u32.into()), Token::Array((0..a).map(|_| Token::Address(eth(E1))).collect()), Token::Array((0..b).map(|_| ids(&[s])).collect()), Token::Address(eth(0x77))]);
	let b0 = NextBlockedMintId::<T>::get();
	let r = Peg::on_event(&PEG, &data);
	sx::reach("ok");
	sx::check(r.is_err() && issued(COL) == 0 && NextBlockedMintId::<T>::get() == b0, "lists of different lengths are refused");
}
/// Back to Ethereum: the owner burns, one message carries exactly the burnt tokens.
fn withdraw(shape: &[(u32, usize)]) {
	setup();
	let bridged = sx::bool();
	let origin = if bridged { OriginChain::Ethereum } else { OriginChain::Root };
	let s1 = serials(2);
	let t1 = sx::u32();
	sx::assume(t1 != s1[0] && t1 != s1[1]);
	coll(COL, origin, &[(acc(0), s1), (acc(1), vec![t1])]);
	let u = sx::u32();
	coll(COL2, OriginChain::Ethereum, &[(acc(0), vec![u])]);
	if sx::bool() {
		map(COL, E1);
	}
	map(COL2, E2);
	if sx::bool() {
		TokenLocks::<T>::insert((COL, sx::u32()), TokenLockReason::Listed(3));
	}
	EthFail::put(sx::bool());
	let who = pick_acc(2);
	let to = H160(sx::bytes());
	let groups: Vec<(u32, Vec<u32>)> = shape.iter().map(|(c, n)| (*c, (0..*n).map(|_| sx::u32()).collect())).collect();
	let q = sx::u32();
	let before = [owner_of(COL, q), owner_of(COL2, q)];
	let i0 = [issued(COL), issued(COL2)];
	let locked = TokenLocks::<T>::get((COL, q)).is_some();
	let r = with_layer(|| Peg::withdraw(signed!(who), bv(&groups.iter().map(|g| g.0).collect::<Vec<_>>()), bv(&groups.iter().map(|g| bv(&g.1)).collect::<Vec<_>>()), to));
	if r.is_ok() {
		sx::reach("ok");
		for (k, c) in [COL, COL2].into_iter().enumerate() {
			let n: usize = groups.iter().filter(|g| g.0 == c).map(|g| g.1.len()).sum();
			let hit = groups.iter().filter(|g| g.0 == c).fold(false, |x, g| x | g.1.iter().fold(false, |y, s| y | (*s == q)));
			sx::check(if hit { before[k] == Some(who) && owner_of(c, q).is_none() } else { owner_of(c, q) == before[k] }, "exactly the caller's listed tokens are burnt");
			sx::check(!(hit && k == 0 && locked), "locked tokens stay");
			sx::check(issued(c) == i0[k] - n as u32, "every listed token is burnt once");
		}
		sx::check(bridged || shape.iter().all(|s| s.0 != COL), "only tokens that came from Ethereum go back");
		let v = EthEvents::get();
		let m = ethabi::encode(&[
			Token::Array(groups.iter().map(|g| Token::Address(eth(if g.0 == COL { E1 } else { E2 }))).collect()),
			Token::Array(groups.iter().map(|g| ids(&g.1)).collect()),
			Token::Address(to),
		]);
		sx::check(v.len() == 1 && v[0].0 == PegId::get().into_account_truncating() && v[0].1 == PEG && eqb(&v[0].2, &m), "one message carries exactly the burnt tokens");
	} else {
		sx::reach("err");
		sx::check(owner_of(COL, q) == before[0] && owner_of(COL2, q) == before[1] && [issued(COL), issued(COL2)] == i0 && EthEvents::get().is_empty(), "a failed withdrawal changes nothing");
	}
}
#[no_mangle]
pub extern "C" fn h_withdraw_1() {
	withdraw(&[(COL, 1)])
}
#[no_mangle]
pub extern "C" fn h_withdraw_2() {
	withdraw(&[(COL, 2)])
}
#[no_mangle]
pub extern "C" fn h_withdraw_both() {
	withdraw(&[(COL, 1), (COL2, 1)])
}
#[no_mangle]
pub extern "C" fn h_withdraw_same() {
	withdraw(&[(COL, 1), (COL, 1)])
}
/// Blocked tokens: only the beneficiary sends them back, once.
#[no_mangle]
pub extern "C" fn h_reclaim() {
	setup();
	let s1 = serials(2);
	coll(COL, OriginChain::Ethereum, &[(acc(0), s1)]);
	map(COL, E1);
	map(COL2, E2);
	coll(COL2, OriginChain::Ethereum, &[]);
	let (i, j) = (sx::u32(), sx::u32());
	sx::assume(i != j);
	let a: Vec<u32> = (0..sx::choose(2) + 1).map(|_| sx::u32()).collect();
	let b = vec![sx::u32()];
	let da = pick_acc(2);
	let db = acc(1);
	BlockedTokens::<T>::insert(i, BlockedTokenInfo { collection_id: COL, destination_address: da, serial_numbers: bv(&a) });
	BlockedTokens::<T>::insert(j, BlockedTokenInfo { collection_id: COL2, destination_address: db, serial_numbers: bv(&b) });
	let who = pick_acc(3);
	let id = sx::u32();
	let to = H160(sx::bytes());
	EthFail::put(sx::bool());
	let r = with_layer(|| Peg::reclaim_blocked_nfts(signed!(who), id, to));
	sx::check(issued(COL) == 2 && issued(COL2) == 0, "reclaiming burns nothing on Root");
	if r.is_ok() {
		sx::reach("ok");
		let first = id == i;
		sx::check(first || id == j, "only recorded tokens are reclaimed");
		sx::check(who == if first { da } else { db }, "only the beneficiary reclaims");
		sx::check(blocked(id).is_none(), "blocked tokens are reclaimed once");
		let v = EthEvents::get();
		let m = ethabi::encode(&[Token::Array(vec![Token::Address(eth(if first { E1 } else { E2 }))]), Token::Array(vec![ids(if first { &a } else { &b })]), Token::Address(to)]);
		sx::check(v.len() == 1 && v[0].1 == PEG && eqb(&v[0].2, &m), "one message carries exactly the blocked tokens");
		sx::check(if first { blocked(j) == Some((COL2, db, b)) } else { blocked(i) == Some((COL, da, a)) }, "other blocked tokens are untouched");
	} else {
		sx::reach("err");
		sx::check(blocked(j) == Some((COL2, db, b)) && blocked(i) == Some((COL, da, a)) && EthEvents::get().is_empty(), "a refused claim changes nothing");
		sx::check(!(id == i && who == da || id == j && who == db) || EthFail::get(), "blocked tokens can be reclaimed");
	}
}
/// Only root names the peg contract, and only that contract is listened to.
#[no_mangle]
pub extern "C" fn h_contract() {
	setup();
	let e = H160(sx::bytes());
	let root = sx::bool();
	let r = Peg::set_contract_address(if root { vstub::system::RawOrigin::Root.into() } else { signed!(any_acc()) }, e);
	sx::check(r.is_ok() == root && ContractAddress::<T>::get() == if root { e } else { PEG }, "only root sets the contract");
	let s = H160(sx::bytes());
	sx::check(<Peg as EthereumEventSubscriber>::verify_source(&s).is_ok() == (s == ContractAddress::<T>::get()), "only the peg contract is listened to");
	sx::reach("ok");
}

/// The collection that may be Root-originated named second.
#[no_mangle]
pub extern "C" fn h_withdraw_swapped() {
	withdraw(&[(COL2, 1), (COL, 1)])
}
