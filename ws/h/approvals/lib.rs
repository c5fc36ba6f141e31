#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use seed_pallet_common::NFTExt;
use pallet_nft::{CollectionInfo, CollectionInformation, TokenOwnership};
use pallet_token_approvals::*;
use seed_primitives::*;
use vstub::system::RawOrigin;

sys!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Pallet<T>;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl Config for T {
	type NFTExt = pallet_nft::Pallet<T>;
	type WeightInfo = ();
}
const COL: u32 = (7 << 10) | 100;
fn bv<X: Clone>(v: &[X]) -> BoundedVec<X, MaxTok> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn owner_of(s: u32) -> Option<Acc> {
	<pallet_nft::Pallet<T> as NFTExt>::get_token_owner(&(COL, s))
}
/// Account 0 holds two tokens, account 1 holds one; one approval and one approval-for-all may exist.
fn setup() -> (u32, u32, u32) {
	let (a, b, c) = (sx::u32(), sx::u32(), sx::u32());
	sx::assume(a < b && a != c && b != c);
	let next = sx::u32();
	sx::assume(a < next && b < next && c < next);
	CollectionInfo::<T>::insert(
		COL,
		CollectionInformation::<Acc, MaxTok, StrLim> {
			owner: acc(5),
			name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(),
			metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: OriginChain::Root,
			next_serial_number: next,
			collection_issuance: 3,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[a, b]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[c]) }]),
		},
	);
	if sx::bool() {
		// approvals exist only for existing tokens
		let s = if sx::bool() { a } else { c };
		ERC721Approvals::<T>::insert((COL, s), pick_acc(4));
	}
	if sx::bool() {
		ERC721ApprovalsForAll::<T>::insert(pick_acc(2), (if sx::bool() { COL } else { sx::u32() }, acc(3)), true);
	}
	(a, b, c)
}
fn allowed(s: u32, x: &Acc) -> bool {
	Pallet::<T>::is_approved_or_owner((COL, s), *x)
}
/// Approving a token.
#[no_mangle]
pub extern "C" fn h_approve() {
	setup();
	let (caller, op) = (pick_acc(4), pick_acc(4));
	let (s, q) = (sx::u32(), sx::u32());
	let before = ERC721Approvals::<T>::get((COL, q));
	let owner = owner_of(s);
	let all = owner.map_or(false, |o| ERC721ApprovalsForAll::<T>::get(o, (COL, caller)).unwrap_or_default());
	let plain = sx::bool();
	let o = if plain { RawOrigin::None.into() } else { signed!(caller) };
	let r = with_layer(|| Pallet::<T>::erc721_approval(o, caller, op, (COL, s)));
	let after = ERC721Approvals::<T>::get((COL, q));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(plain, "only the EVM layer records approvals");
		sx::check(owner == Some(caller) || all, "only the owner or an operator for all approves");
		sx::check(owner.is_some() && caller != op, "approvals are for existing tokens and other accounts");
		sx::check(after == if q == s { Some(op) } else { before }, "exactly this token's approval is set");
		sx::check(allowed(s, &op), "the approved account may act");
	} else {
		sx::reach("err");
		sx::check(after == before, "a refused approval changes nothing");
	}
}
/// Approvals die with a transfer or burn, and say exactly who may act.
#[no_mangle]
pub extern "C" fn h_move() {
	let _ = setup();
	let who = pick_acc(2);
	let to = pick_acc(3);
	let (s, t, q) = (sx::u32(), sx::u32(), sx::u32());
	let burn = sx::bool();
	let two = sx::bool();
	let before = ERC721Approvals::<T>::get((COL, q));
	let r = with_layer(|| if burn { pallet_nft::Pallet::<T>::burn(signed!(who), (COL, s)) } else { pallet_nft::Pallet::<T>::transfer(signed!(who), COL, if two { bv(&[s, t]) } else { bv(&[s]) }, to) });
	let after = ERC721Approvals::<T>::get((COL, q));
	let moved = q == s || (!burn && two && q == t);
	if r.is_ok() {
		sx::reach("ok");
		sx::check(after == if moved { None } else { before }, "approvals of moved or burnt tokens are gone, others stay");
	} else {
		sx::reach("err");
		sx::check(after == before, "a failed transfer or burn changes no approval");
	}
}
/// Who may act on a token.
#[no_mangle]
pub extern "C" fn h_allowed() {
	setup();
	let s = sx::u32();
	let x = pick_acc(4);
	let o = owner_of(s);
	let all = o.map_or(false, |o| ERC721ApprovalsForAll::<T>::get(o, (COL, x)).unwrap_or_default());
	let ap = ERC721Approvals::<T>::get((COL, s)) == Some(x);
	sx::reach("ok");
	sx::check(allowed(s, &x) == (o == Some(x) || all || ap), "only the owner, its operators and the approved account may act");
	sx::check(o.is_some() || !allowed(s, &x), "nobody may act on a token that does not exist");
	// withdrawing an approval
	let who = pick_acc(4);
	let r = with_layer(|| Pallet::<T>::erc721_remove_approval(signed!(who), (COL, s)));
	let now = ERC721Approvals::<T>::get((COL, s));
	sx::check(if r.is_ok() { o == Some(who) && now.is_none() } else { (now == Some(x)) == ap }, "only the owner withdraws the approval");
}
/// Operators for all tokens of a collection (NFT and SFT).
#[no_mangle]
pub extern "C" fn h_for_all() {
	let (caller, op, x, y) = (pick_acc(3), pick_acc(3), pick_acc(3), pick_acc(3));
	let (c, d) = (sx::u32(), sx::u32());
	let (was, on, sft, plain) = (sx::bool(), sx::bool(), sx::bool(), sx::bool());
	if was {
		if sft {
			ERC1155ApprovalsForAll::<T>::insert(x, (d, y), true);
		} else {
			ERC721ApprovalsForAll::<T>::insert(x, (d, y), true);
		}
	}
	let o = if plain { RawOrigin::None.into() } else { signed!(caller) };
	let r = with_layer(|| if sft { Pallet::<T>::erc1155_approval_for_all(o, caller, op, c, on) } else { Pallet::<T>::erc721_approval_for_all(o, caller, op, c, on) });
	let now = if sft { ERC1155ApprovalsForAll::<T>::get(x, (d, y)) } else { ERC721ApprovalsForAll::<T>::get(x, (d, y)) }.unwrap_or_default();
	let other = if sft { ERC721ApprovalsForAll::<T>::get(x, (d, y)) } else { ERC1155ApprovalsForAll::<T>::get(x, (d, y)) }.unwrap_or_default();
	sx::check(!other, "NFT and SFT operators are separate");
	if r.is_ok() {
		sx::reach("ok");
		sx::check(plain && caller != op, "only the EVM layer records approvals, for other accounts");
		let this = caller == x && op == y && c == d;
		sx::check(now == if this { on } else { was }, "exactly this operator is switched");
	} else {
		sx::reach("err");
		sx::check(now == was, "a refused approval changes nothing");
	}
}
/// Allowances are set exactly and never overspent.
#[no_mangle]
pub extern "C" fn h_erc20() {
	let (caller, op, x, y) = (pick_acc(3), pick_acc(3), pick_acc(3), pick_acc(3));
	let (a, b, n) = (sx::u32(), sx::u32(), sx::u128());
	let old = if sx::bool() { Some(sx::u128()) } else { None };
	if let Some(v) = old {
		ERC20Approvals::<T>::insert((x, b), y, v);
	}
	let (use_, plain) = (sx::bool(), sx::bool());
	let o = if plain { RawOrigin::None.into() } else { signed!(caller) };
	let r = with_layer(|| if use_ { Pallet::<T>::erc20_update_approval(o, caller, op, a, n) } else { Pallet::<T>::erc20_approval(o, caller, op, a, n) });
	let now = ERC20Approvals::<T>::get((x, b), y);
	let this = caller == x && op == y && a == b;
	if r.is_ok() {
		sx::reach("ok");
		sx::check(plain, "only the EVM layer touches allowances");
		if !this {
			sx::check(now == old, "other allowances stay");
		} else if use_ {
			sx::check(old.map_or(false, |v| n <= v), "an allowance is never overspent");
			sx::check(now.unwrap_or(0) == old.unwrap_or(0) - n, "spending lowers the allowance by the amount");
		} else {
			sx::check(now == Some(n) && caller != op, "an approval sets exactly the amount");
		}
	} else {
		sx::reach("err");
		sx::check(now == old, "a refused call changes nothing");
	}
}
