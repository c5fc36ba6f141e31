//! What is attached to tokens: NFI data and XLS-20 tokens. Collections and tokens are real.
#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_nfi::types::{FeeDetails, GenericCollectionId as GC, GenericSerialNumber as GS, MultiChainTokenId, NFIDataType, NFIMatrix, NFISubType};
use pallet_nft::{CollectionInformation, TokenOwnership};
use seed_pallet_common::{NFIRequest, NFTExt, Xls20Ext, Xls20MintRequest};
use seed_primitives::{xrpl::Xls20TokenId, *};
use sp_core::{H160, H256};
use sp_runtime::traits::AccountIdConversion;
use vstub::system::RawOrigin;

sys!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	XPid: PalletId = PalletId(*b"xls20bri");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 3;
	NetFee: sp_runtime::Permill = sp_runtime::Permill::from_parts(5_000);
	MaxData: u32 = 4;
	MaxBytes: u32 = 4;
	Chain: u64 = 7668;
	PayAsset: u32 = 2;
	XMax: u32 = 3;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = pallet_xls20::Pallet<T>;
	type NFIRequest = pallet_nfi::Pallet<T>;
}
impl pallet_sft::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = MintLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = pallet_nfi::Pallet<T>;
}
impl pallet_nfi::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type SFTExt = pallet_sft::Pallet<T>;
	type NetworkFeePercentage = NetFee;
	type MaxDataLength = MaxData;
	type MaxByteLength = MaxBytes;
	type WeightInfo = ();
	type ChainId = Chain;
}
impl pallet_xls20::Config for T {
	type RuntimeEvent = ();
	type PalletId = XPid;
	type MaxTokensPerXls20Mint = XMax;
	type MultiCurrency = Ledger;
	type WeightInfo = ();
	type NFTExt = pallet_nft::Pallet<T>;
	type NFTCollectionInfo = pallet_nft::Pallet<T>;
	type Xls20PaymentAsset = PayAsset;
	type NFTMinter = pallet_nft::Pallet<T>;
	type Migrator = ();
}
type Nft = pallet_nft::Pallet<T>;
type Nfi = pallet_nfi::Pallet<T>;
type Xls = pallet_xls20::Pallet<T>;
type Tid = MultiChainTokenId<MaxBytes>;
type Xls20Collection = <pallet_xls20::CollectionMapping<T> as frame_support::storage::StorageQuery>::K1;
const NCOL: u32 = (7 << 10) | 100;
const SCOL: u32 = (8 << 10) | 100;
fn name<N: frame_support::traits::Get<u32>>(b: &[u8]) -> BoundedVec<u8, N> {
	BoundedVec::try_from(b.to_vec()).ok().unwrap()
}
/// An NFT collection of account 5 with two tokens of account 0.
fn nft() -> (u32, u32) {
	let (s, t) = (sx::u32(), sx::u32());
	sx::assume(s < t && t < u32::MAX);
	pallet_nft::CollectionInfo::<T>::insert(
		NCOL,
		CollectionInformation {
			owner: acc(5),
			name: name(b"n"),
			metadata_scheme: MetadataScheme(name(b"m")),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: OriginChain::Root,
			next_serial_number: t + 1,
			collection_issuance: 2,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: sx::bool() },
			owned_tokens: BoundedVec::try_from(vec![TokenOwnership { owner: acc(0), owned_serials: BoundedVec::try_from(vec![s, t]).ok().unwrap() }]).ok().unwrap(),
		},
	);
	(s, t)
}
/// An SFT collection of account 4 with one token.
fn sft() -> u32 {
	pallet_sft::SftCollectionInfo::<T>::insert(
		SCOL,
		pallet_sft::SftCollectionInformation {
			collection_owner: acc(4),
			collection_name: name(b"c"),
			metadata_scheme: MetadataScheme(name(b"m")),
			royalties_schedule: None,
			origin_chain: OriginChain::Root,
			next_serial_number: 1,
		},
	);
	let s = sx::u32();
	pallet_sft::TokenInfo::<T>::insert((SCOL, s), pallet_sft::SftTokenInformation { token_name: name(b"t"), max_issuance: None, token_issuance: 0, owned_tokens: BoundedVec::default() });
	s
}
fn origin() -> (vstub::system::Origin<Acc, NoCall<T>>, bool, Option<Acc>) {
	match sx::choose(3) {
		0 => (vstub::system::Origin::from(RawOrigin::Root), true, None),
		1 => (vstub::system::Origin::from(RawOrigin::None), false, None),
		_ => {
			let a = pick_acc(6);
			(signed!(a), false, Some(a))
		},
	}
}
fn cid() -> GC<MaxBytes> {
	match sx::choose(5) {
		0 => GC::U32(NCOL),
		1 => GC::U32(SCOL),
		2 => GC::U32(sx::u32()),
		3 => GC::U64(sx::u64()),
		_ => GC::H160(H160(sx::bytes::<20>())),
	}
}
fn sid() -> GS<MaxBytes> {
	match sx::choose(3) {
		0 => GS::U32(sx::u32()),
		1 => GS::U64(sx::u64()),
		_ => GS::Bytes(name(&sx::vec(2))),
	}
}
const N: NFISubType = NFISubType::NFI;
fn data() -> NFIDataType<MaxData> {
	NFIDataType::NFI(NFIMatrix { metadata_link: name(&sx::vec(3)), verification_hash: H256(sx::bytes::<32>()) })
}
/// The fee for a request, and who gets the network's share.
fn fee() -> (u128, Option<Acc>) {
	Ledger::create(2, u128::MAX / 2);
	let f = if sx::bool() {
		let a: u128 = sx::u64() as u128;
		sx::assume(a > 0);
		pallet_nfi::MintFee::<T>::insert(N, FeeDetails { asset_id: 2, amount: a, receiver: acc(8) });
		a
	} else {
		0
	};
	let p = if sx::bool() {
		pallet_nfi::FeeTo::<T>::put(acc(7));
		Some(acc(7))
	} else {
		None
	};
	(f, p)
}
/// Account `w` holds any amount of the fee asset.
fn purse(w: &Acc) -> u128 {
	let b = sx::u128();
	sx::assume(b < u128::MAX / 4);
	Ledger::set(2, w, b);
	b
}
/// What was paid by whom to whom is the fee for `n` tokens.
fn paid(w: &Acc, b: u128, f: u128, p: &Option<Acc>, n: u128) {
	let total = f * n;
	sx::check(b - Ledger::bal(2, w) == total, "a request costs the fee for each token");
	let net = Ledger::bal(2, &acc(7));
	sx::check(net + Ledger::bal(2, &acc(8)) == total, "the fee is paid out in full");
	if p.is_some() {
		let (x, y) = (net * 1_000_000, total * 5_000);
		sx::check(x <= y + 500_000 && y <= x + 500_000, "the network gets its share");
	} else {
		sx::check(net == 0, "without a receiver the network gets no share");
	}
}
// ---------------------------------------------------------------- NFI
#[no_mangle]
pub extern "C" fn h_nfi_set() {
	nft();
	sft();
	let (o, root, who) = origin();
	match sx::choose(4) {
		0 => {
			let r = with_layer(|| Nfi::set_relayer(o, acc(1)));
			sx::reach("a relayer");
			sx::check(r.is_ok() == root && pallet_nfi::Relayer::<T>::get() == if root { Some(acc(1)) } else { None }, "only governance sets the relayer");
		},
		1 => {
			pallet_nfi::FeeTo::<T>::put(acc(7));
			let f = if sx::bool() { Some(acc(1)) } else { None };
			let r = with_layer(|| Nfi::set_fee_to(o, f));
			sx::reach("a fee receiver");
			sx::check(r.is_ok() == root && pallet_nfi::FeeTo::<T>::get() == if root { f } else { Some(acc(7)) }, "only governance sets who receives the network's share");
		},
		2 => {
			let old = FeeDetails { asset_id: 2, amount: 5, receiver: acc(8) };
			pallet_nfi::MintFee::<T>::insert(N, old.clone());
			let f = if sx::bool() { Some(FeeDetails { asset_id: sx::u32(), amount: sx::u128(), receiver: acc(1) }) } else { None };
			let ok = root && f.as_ref().map_or(true, |f| f.amount > 0);
			let r = with_layer(|| Nfi::set_fee_details(o, N, f.clone()));
			sx::reach("a fee");
			sx::check(r.is_ok() == ok && pallet_nfi::MintFee::<T>::get(N) == if ok { f } else { Some(old) }, "only governance sets the fee, and never to zero");
		},
		_ => {
			let c = match sx::choose(3) {
				0 => NCOL,
				1 => SCOL,
				_ => sx::u32(),
			};
			let ok = who.map_or(false, |w| (c == NCOL && same(&w, &acc(5))) || (c == SCOL && same(&w, &acc(4))));
			let q = (sx::u64(), GC::U32(sx::u32()));
			let mine = q == (7668, GC::U32(c));
			let r = with_layer(|| Nfi::enable_nfi_for_trn_collection(o, c, N));
			sx::reach("a collection");
			sx::check(r.is_ok() == ok, "only a collection's owner enables NFI for it");
			sx::check(pallet_nfi::NfiEnabled::<T>::get(q, N) == (ok && mine), "NFI is enabled for that collection and no other");
		},
	}
}
#[no_mangle]
pub extern "C" fn h_nfi_request() {
	let (s, t) = nft();
	let u = sft();
	let (f, p) = fee();
	let on = sx::bool();
	let id = Tid { chain_id: if sx::bool() { 7668 } else { sx::u64() }, collection_id: cid(), serial_number: sid() };
	if on {
		pallet_nfi::NfiEnabled::<T>::insert((7668u64, id.collection_id.clone()), N, true);
	}
	let who = pick_acc(6);
	let b = purse(&who);
	let r = with_layer(|| Nfi::manual_data_request(signed!(who), id.clone(), N));
	let local = id.chain_id == 7668;
	let may = match (&id.collection_id, &id.serial_number) {
		(GC::U32(c), GS::U32(x)) => (*c == NCOL && (*x == s || *x == t) && (same(&who, &acc(0)) || same(&who, &acc(5)))) || (*c == SCOL && same(&who, &acc(4))),
		_ => false,
	};
	if r.is_ok() {
		sx::reach("requested");
		sx::check(!local || (on && may), "data is requested by the owner of a token or its collection, if NFI is enabled");
		paid(&who, b, f, &p, 1);
	} else {
		sx::reach("refused");
		sx::check((local && !(on && may)) || b < f, "a request that is allowed and paid for is made");
		sx::check(Ledger::bal(2, &who) == b, "a refused request costs nothing");
	}
	let _ = u;
}
#[no_mangle]
pub extern "C" fn h_nfi_submit() {
	let (s, t) = nft();
	let u = sft();
	let on = sx::bool();
	let id = Tid { chain_id: if sx::bool() { 7668 } else { sx::u64() }, collection_id: cid(), serial_number: sid() };
	if on {
		pallet_nfi::NfiEnabled::<T>::insert((7668u64, id.collection_id.clone()), N, true);
	}
	if sx::bool() {
		pallet_nfi::Relayer::<T>::put(acc(1));
	}
	let other = Tid { chain_id: 7668, collection_id: GC::U32(NCOL), serial_number: GS::U32(s) };
	let d0 = data();
	if sx::bool() {
		pallet_nfi::NfiData::<T>::insert(other.clone(), N, d0);
	}
	let before = pallet_nfi::NfiData::<T>::get(other.clone(), N);
	let (o, _, who) = origin();
	let d = data();
	let r = with_layer(|| Nfi::submit_nfi_data(o, id.clone(), d.clone()));
	let relayer = who.is_some() && pallet_nfi::Relayer::<T>::get() == who;
	let there = match (&id.collection_id, &id.serial_number) {
		(GC::U32(c), GS::U32(x)) => (*c == NCOL && (*x == s || *x == t)) || (*c == SCOL && *x == u),
		_ => false,
	};
	let ok = relayer && (id.chain_id != 7668 || (on && there));
	sx::check(r.is_ok() == ok, "the relayer alone sets data, here only of tokens that exist with NFI enabled");
	if ok {
		sx::reach("submitted");
		sx::check(pallet_nfi::NfiData::<T>::get(id.clone(), N) == Some(d), "a token's data is what the relayer submitted");
	} else {
		sx::reach("refused");
	}
	if !ok || id != other {
		sx::check(pallet_nfi::NfiData::<T>::get(other, N) == before, "other tokens keep their data");
	}
}
#[no_mangle]
pub extern "C" fn h_nfi_token() {
	let (s, t) = nft();
	let (f, p) = fee();
	let on = sx::bool();
	if on {
		pallet_nfi::NfiEnabled::<T>::insert((7668u64, GC::U32(NCOL)), N, true);
	}
	let who = acc(1);
	let b = purse(&who);
	if sx::bool() {
		// minting asks and pays for the new tokens' data
		let n = 1 + sx::choose(3) as u32;
		let r = with_layer(|| <Nfi as NFIRequest>::request(&who, NCOL, (0..n).collect()));
		if r.is_ok() {
			sx::reach("minted");
			if on {
				paid(&who, b, f, &p, n as u128);
			} else {
				sx::check(Ledger::bal(2, &who) == b, "a collection without NFI costs no fee");
			}
		} else {
			sx::reach("not paid for");
			sx::check(on && b < f * n as u128, "a mint that can be paid for is not stopped");
		}
	} else {
		// a burnt token's data goes, nobody else's
		let id = |c: u32, s: u32, k: u64| Tid { chain_id: k, collection_id: GC::U32(c), serial_number: GS::U32(s) };
		let d = data();
		for i in [id(NCOL, s, 7668), id(NCOL, t, 7668), id(SCOL, s, 7668), id(NCOL, s, 1)] {
			pallet_nfi::NfiData::<T>::insert(i, N, d.clone());
		}
		pallet_nft::UtilityFlags::<T>::insert(NCOL, seed_pallet_common::utils::CollectionUtilityFlags { transferable: true, burnable: true, mintable: true });
		let r = with_layer(|| Nft::burn(signed!(acc(0)), (NCOL, s)));
		sx::reach("burnt");
		sx::check(r.is_ok(), "an owner burns his token");
		sx::check(!pallet_nfi::NfiData::<T>::contains_key(id(NCOL, s, 7668), N), "a burnt token leaves no data");
		for i in [id(NCOL, t, 7668), id(SCOL, s, 7668), id(NCOL, s, 1)] {
			sx::check(pallet_nfi::NfiData::<T>::get(i, N) == Some(d.clone()), "other tokens keep their data");
		}
	}
}
// ---------------------------------------------------------------- XLS-20
fn relayer(n: u8) -> Option<Acc> {
	if sx::bool() {
		pallet_xls20::Relayer::<T>::put(acc(n));
		Some(acc(n))
	} else {
		None
	}
}
#[no_mangle]
pub extern "C" fn h_xls_request() {
	let (s, t) = nft();
	sx::assume(t < 10); // a token's URI is its number in digits: one here
	Ledger::create(2, u128::MAX / 2);
	let f: u128 = sx::u64() as u128;
	pallet_xls20::Xls20MintFee::<T>::put(f);
	let rel = relayer(8);
	let who = pick_acc(6);
	let b = purse(&who);
	let done = sx::bool();
	if done {
		pallet_xls20::Xls20TokenMap::<T>::insert(NCOL, s, [9u8; 32]);
	}
	let col = if sx::bool() { NCOL } else { sx::u32() };
	let n = sx::choose(3) as usize;
	let l: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
	let total = if rel.is_some() { f * n as u128 } else { 0 };
	let r = with_layer(|| Xls::re_request_xls20_mint(signed!(who), col, BoundedVec::try_from(l.clone()).ok().unwrap()));
	let x = pallet_nft::CollectionInfo::<T>::get(NCOL).unwrap().cross_chain_compatibility.xrpl;
	let ok = n > 0 && col == NCOL && same(&who, &acc(5)) && x && l.iter().all(|i| (*i == s && !done) || *i == t);
	if r.is_ok() {
		sx::reach("requested");
		sx::check(ok, "its owner asks for XLS-20 tokens of a collection's tokens that have none");
		sx::check(b - Ledger::bal(2, &who) == total && Ledger::bal(2, &acc(8)) == total, "the relayer receives the fee for each token");
	} else {
		sx::reach("refused");
		sx::check(!ok || b < total, "a request that is allowed and paid for is made");
		sx::check(Ledger::bal(2, &who) == b, "a refused request costs nothing");
	}
	// minting in such a collection pays the same way
	let c = Ledger::bal(2, &who);
	let got = Ledger::bal(2, &acc(8));
	let r = with_layer(|| <Xls as Xls20MintRequest>::request_xls20_mint(&who, NCOL, vec![1, 2], MetadataScheme(name(b"m"))));
	let total = if rel.is_some() { f * 2 } else { 0 };
	sx::check(r.is_ok() == (c >= total), "a mint that can be paid for is not stopped");
	if r.is_ok() {
		sx::check(c - Ledger::bal(2, &who) == total && Ledger::bal(2, &acc(8)) - got == total, "the relayer receives the fee for each token");
	}
}
#[no_mangle]
pub extern "C" fn h_xls_fulfil() {
	let (s, t) = nft();
	let rel = relayer(1);
	let (o, root, who) = origin();
	let old: Xls20TokenId = sx::bytes::<32>();
	let done = sx::bool();
	if done {
		pallet_xls20::Xls20TokenMap::<T>::insert(NCOL, s, old);
	}
	let get = |i: u32| pallet_xls20::Xls20TokenMap::<T>::get(NCOL, i);
	if sx::bool() {
		let n = sx::choose(3) as usize;
		let l: Vec<(u32, Xls20TokenId)> = (0..n).map(|_| (sx::u32(), sx::bytes::<32>())).collect();
		let col = if sx::bool() { NCOL } else { sx::u32() };
		let r = with_layer(|| Xls::fulfill_xls20_mint(o, col, BoundedVec::try_from(l.clone()).ok().unwrap()));
		let fresh = l.iter().all(|(i, _)| (*i == s && !done) || *i == t) && !(n == 2 && l[0].0 == l[1].0);
		let ok = n > 0 && col == NCOL && who.is_some() && who == rel && fresh;
		sx::check(r.is_ok() == ok, "the relayer alone says which XLS-20 token a token has, once");
		let q = sx::u32();
		let was = if done && q == s { Some(old) } else { None };
		if ok {
			sx::reach("fulfilled");
			let want = l.iter().find(|(i, _)| *i == q).map(|x| x.1).or(was);
			sx::check(get(q) == want, "a token's XLS-20 token is the one the relayer named");
			sx::check(<Xls as Xls20Ext>::get_xls20_token_id((NCOL, q)) == want, "the bridge is told a token's own XLS-20 token");
		} else {
			sx::reach("refused");
			sx::check(get(q) == was, "no XLS-20 token is ever replaced");
		}
	} else {
		match sx::choose(3) {
			0 => {
				let r = with_layer(|| Xls::set_relayer(o, acc(2)));
				sx::check(r.is_ok() == root && pallet_xls20::Relayer::<T>::get() == if root { Some(acc(2)) } else { rel }, "only governance sets the relayer");
			},
			1 => {
				let f = sx::u128();
				pallet_xls20::Xls20MintFee::<T>::put(5);
				let r = with_layer(|| Xls::set_xls20_fee(o, f));
				sx::check(r.is_ok() == root && pallet_xls20::Xls20MintFee::<T>::get() == if root { f } else { 5 }, "only governance sets the fee");
			},
			_ => {
				let k = Xls20Collection::new(H160(sx::bytes::<20>()), sx::u32());
				let j = Xls20Collection::new(H160(sx::bytes::<20>()), sx::u32());
				let c = sx::u32();
				let r = with_layer(|| Xls::set_collection_mappings(o, vec![(c, k)]));
				sx::check(r.is_ok() == root, "only governance maps collections");
				sx::check(pallet_xls20::CollectionMapping::<T>::get(j) == if root && j == k { Some(c) } else { None }, "a collection is mapped as governance says");
			},
		}
		sx::reach("set");
	}
}
/// The collection's number an XLS-20 token names, as XRPL scrambles it.
fn taxon(id: &[u8; 32]) -> u32 {
	let w = |i: usize| u32::from_be_bytes([id[i], id[i + 1], id[i + 2], id[i + 3]]);
	w(24) ^ w(28).wrapping_mul(384160001).wrapping_add(2459)
}
#[no_mangle]
pub extern "C" fn h_xls_deposit() {
	let (s, _) = nft();
	pallet_nft::NextCollectionId::<T>::put(20);
	let id: Xls20TokenId = sx::bytes::<32>();
	let seq = u32::from_be_bytes([id[28], id[29], id[30], id[31]]);
	let mut iss = [0u8; 20];
	iss.copy_from_slice(&id[4..24]);
	let k = Xls20Collection::new(H160(iss), taxon(&id));
	let known = sx::bool();
	if known {
		pallet_xls20::CollectionMapping::<T>::insert(k, NCOL);
	}
	let to = acc(1);
	let r = with_layer(|| <Xls as Xls20Ext>::deposit_xls20_token(&to, id).map_err(|e| e.1));
	if id[1] & 1 == 1 {
		sx::reach("a burnable token");
		sx::check(r.is_err(), "a token its issuer can burn is not taken");
		return;
	}
	let at = pallet_xls20::CollectionMapping::<T>::get(k);
	if known {
		sx::check(at == Some(NCOL), "a token's collection stays the same");
		if r.is_err() {
			sx::reach("a token that does not fit");
			return;
		}
		if Nft::get_token_owner(&(NCOL, seq)) == Some(acc(0)) {
			sx::reach("a token that is already here");
			return;
		}
	}
	sx::check(r.is_ok(), "a token from XRPL is taken");
	let c = at.unwrap();
	sx::check(Nft::get_token_owner(&(c, seq)) == Some(to), "a token from XRPL goes to the one it was sent to");
	sx::check(<Xls as Xls20Ext>::get_xls20_token_id((c, seq)) == Some(id), "and keeps its identity");
	let i = pallet_nft::CollectionInfo::<T>::get(c).unwrap();
	if known {
		sx::reach("a token of a known collection");
		sx::check(i.collection_issuance == 3 && Nft::get_token_owner(&(NCOL, s)) == Some(acc(0)), "it is one more token of its collection");
	} else {
		sx::reach("a token of a new collection");
		sx::check(c != NCOL && i.collection_issuance == 1 && i.owner == XPid::get().into_account_truncating(), "a new collection is the bridge's");
		sx::check(i.origin_chain == OriginChain::XRPL && i.cross_chain_compatibility.xrpl, "a new collection is XRPL's");
		// the next token of the same collection joins it, one of another does not
		let mut id2: Xls20TokenId = id;
		let x = sx::u32();
		id2[24..28].copy_from_slice(&x.to_be_bytes());
		let v = sx::u32();
		sx::assume(v != seq);
		id2[28..32].copy_from_slice(&v.to_be_bytes());
		if with_layer(|| <Xls as Xls20Ext>::deposit_xls20_token(&acc(2), id2).map_err(|e| e.1)).is_ok() {
			sx::reach("a second token");
			let joined = Nft::get_token_owner(&(c, v)) == Some(acc(2));
			sx::check(joined == (taxon(&id2) == taxon(&id)), "tokens share a collection exactly if they do on XRPL");
		}
	}
}
#[no_mangle]
pub extern "C" fn h_xls_enable() {
	nft();
	let n = sx::u32();
	let x0 = sx::bool();
	pallet_nft::CollectionInfo::<T>::mutate(NCOL, |c| {
		if let Some(c) = c {
			c.collection_issuance = n;
			c.cross_chain_compatibility.xrpl = x0;
		}
	});
	let who = pick_acc(6);
	let r = with_layer(|| Xls::enable_xls20_compatibility(signed!(who), NCOL));
	sx::reach("asked");
	let ok = n == 0 && same(&who, &acc(5));
	sx::check(r.is_ok() == ok, "its owner makes a collection without tokens compatible");
	sx::check(pallet_nft::CollectionInfo::<T>::get(NCOL).unwrap().cross_chain_compatibility.xrpl == (ok || x0), "nothing else makes it compatible");
}
/// A real mint pays for both what is attached to the tokens.
#[no_mangle]
pub extern "C" fn h_mint() {
	let (_, t) = nft();
	sx::assume(t < 6); // below the cap, URIs of one digit
	let (f, p) = fee();
	let on = sx::bool();
	if on {
		pallet_nfi::NfiEnabled::<T>::insert((7668u64, GC::U32(NCOL)), N, true);
	}
	let g: u128 = sx::u64() as u128;
	pallet_xls20::Xls20MintFee::<T>::put(g);
	pallet_xls20::Relayer::<T>::put(acc(6));
	pallet_nft::UtilityFlags::<T>::insert(NCOL, seed_pallet_common::utils::CollectionUtilityFlags { transferable: true, burnable: true, mintable: true });
	let x = pallet_nft::CollectionInfo::<T>::get(NCOL).unwrap().cross_chain_compatibility.xrpl;
	let who = acc(5);
	let b = purse(&who);
	let n = 1 + sx::choose(2) as u32;
	let r = with_layer(|| Nft::mint(signed!(who), NCOL, n, Some(acc(1))));
	let (nfi, xls) = (if on { f * n as u128 } else { 0 }, if x { g * n as u128 } else { 0 });
	if r.is_ok() {
		sx::reach("minted");
		sx::check(Ledger::bal(2, &acc(6)) == xls, "the relayer receives its fee for each token of a compatible collection");
		let net = Ledger::bal(2, &acc(7));
		sx::check(net + Ledger::bal(2, &acc(8)) == nfi && (p.is_some() || net == 0), "data is paid for each token if NFI is enabled");
		sx::check(b - Ledger::bal(2, &who) == nfi + xls, "the minter pays exactly that");
		sx::check(Nft::get_token_owner(&(NCOL, t + n)) == Some(acc(1)), "and gets his tokens");
	} else {
		sx::reach("not minted");
		sx::check(b < nfi + xls, "a mint that can be paid for is not stopped");
		sx::check(Ledger::bal(2, &who) == b && Nft::get_token_owner(&(NCOL, t + 1)).is_none(), "nothing is paid or minted by halves");
	}
}
