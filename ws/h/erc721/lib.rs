#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_evm_precompiles_erc721::*;
use pallet_nft::{CollectionInfo, CollectionInformation, TokenLocks, TokenOwnership, UtilityFlags};
use pallet_token_approvals::{ERC721Approvals, ERC721ApprovalsForAll};
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_pallet_common::NFTExt;
use seed_primitives::*;
use sp_core::{H160, H256, U256};
use vstub::evm::*;

calls!(T, RtCall { Nft: pallet_nft::Call<T>, Xls: pallet_xls20::Call<T>, Appr: pallet_token_approvals::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	XlsLim: u32 = 2;
	Pid: PalletId = PalletId(*b"nftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
	Xrp: u32 = 2;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = pallet_token_approvals::Pallet<T>;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_token_approvals::Config for T {
	type NFTExt = pallet_nft::Pallet<T>;
	type WeightInfo = ();
}
impl pallet_xls20::Config for T {
	type RuntimeEvent = ();
	type PalletId = Pid;
	type MaxTokensPerXls20Mint = XlsLim;
	type MultiCurrency = Ledger;
	type WeightInfo = ();
	type NFTExt = pallet_nft::Pallet<T>;
	type NFTCollectionInfo = pallet_nft::Pallet<T>;
	type Xls20PaymentAsset = Xrp;
	type NFTMinter = pallet_nft::Pallet<T>;
	type Migrator = ();
}
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
const COL: u32 = (7 << 10) | 100;
fn code() -> H160 {
	T::runtime_id_to_evm_id(COL, &[0xAA; 4]).into()
}
fn bv<X: Clone>(v: &[X]) -> BoundedVec<X, MaxTok> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn owner_of(s: u32) -> Option<Acc> {
	<pallet_nft::Pallet<T> as NFTExt>::get_token_owner(&(COL, s))
}
fn info() -> CollectionInformation<Acc, MaxTok, StrLim> {
	CollectionInfo::<T>::get(COL).unwrap()
}
/// Account 0 holds two tokens, account 1 one, with any serials; account 4 owns the collection. Tokens may be approved to and operated by the others.
fn setup() -> [u32; 3] {
	let (a, b, c) = (sx::u32(), sx::u32(), sx::u32());
	sx::assume(a < b && a != c && b != c);
	let next = sx::u32();
	sx::assume(b < next && c < next);
	CollectionInfo::<T>::insert(
		COL,
		CollectionInformation::<Acc, MaxTok, StrLim> {
			owner: acc(4),
			name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(),
			metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: OriginChain::Root,
			next_serial_number: next,
			collection_issuance: 3,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[a, b]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[c]) }]),
		},
	);
	[a, b, c]
}
fn approvals(t: &[u32; 3]) {
	if sx::bool() {
		ERC721Approvals::<T>::insert((COL, t[0]), acc(2));
	}
	if sx::bool() {
		ERC721ApprovalsForAll::<T>::insert(acc(0), (if sx::bool() { COL } else { 9 }, acc(3)), true);
	}
}
fn input(selector: Action, words: &[[u8; 32]]) -> Vec<u8> {
	let n: u32 = selector.into();
	let mut v = n.to_be_bytes().to_vec();
	for w in words {
		v.extend_from_slice(w);
	}
	v
}
fn wa(a: &Acc) -> [u8; 32] {
	let mut w = [0; 32];
	w[12..].copy_from_slice(&H160::from(*a).0);
	w
}
fn wu(x: U256) -> [u8; 32] {
	let mut w = [0; 32];
	x.to_big_endian(&mut w);
	w
}
fn wn(x: u32) -> [u8; 32] {
	wu(U256::from(x))
}
fn run(h: &mut Handle) -> PrecompileResult {
	with_layer(|| Erc721PrecompileSet::<T>::new().execute(h).expect("the collection exists"))
}
fn word(o: &PrecompileOutput) -> [u8; 32] {
	sx::check(o.output.len() == 32, "the answer is one word");
	let mut w = [0; 32];
	w.copy_from_slice(&o.output);
	w
}
/// A token id: any 256-bit number.
fn serial() -> (U256, Option<u32>) {
	if sx::bool() {
		let s = sx::u32();
		(U256::from(s), Some(s))
	} else {
		let x = (U256::from(sx::u128()) << 128usize) | U256::from(sx::u128());
		sx::assume(x > U256::from(u32::MAX));
		(x, None)
	}
}
fn may(s: u32, c: &Acc) -> bool {
	match owner_of(s) {
		None => false,
		Some(o) => o == *c || ERC721ApprovalsForAll::<T>::get(o, (COL, *c)).unwrap_or(false) || ERC721Approvals::<T>::get((COL, s)) == Some(*c),
	}
}
fn moved(h: &Handle, from: &Acc, to: &Acc, s: u32) -> bool {
	h.logs.len() == 1 && h.logs[0].address == code() && h.logs[0].topics == vec![H256(SELECTOR_LOG_TRANSFER), H256(wa(from)), H256(wa(to)), H256(wn(s))] && h.logs[0].data.is_empty()
}

/// The views answer what the collection and the approvals hold, and change nothing.
#[no_mangle]
pub extern "C" fn h_views() {
	let t = setup();
	approvals(&t);
	let c = acc(3);
	let w0 = writes();
	let (x, s) = serial();
	let mut h = Handle::new(code(), c.into(), input(Action::OwnerOf, &[wu(x)]));
	match run(&mut h) {
		Ok(o) => {
			sx::check(s.and_then(owner_of).map(|a| wa(&a)) == Some(word(&o)), "ownerOf is the owner");
			sx::reach("a token");
		},
		Err(_) => {
			sx::check(s.and_then(owner_of).is_none(), "ownerOf answers for every token");
			sx::reach("no token");
		},
	}
	let mut h = Handle::new(code(), c.into(), input(Action::GetApproved, &[wu(x)]));
	match run(&mut h) {
		Ok(o) => sx::check(s.is_some() && word(&o) == ERC721Approvals::<T>::get((COL, s.unwrap())).map_or([0; 32], |a| wa(&a)), "getApproved is the approved account"),
		Err(_) => sx::check(s.is_none(), "getApproved answers for every token"),
	}
	let o = pick_acc(5);
	let mut h = Handle::new(code(), c.into(), input(Action::BalanceOf, &[wa(&o)]));
	let n = t.iter().filter(|s| owner_of(**s) == Some(o)).count() as u32;
	sx::check(word(&run(&mut h).unwrap()) == wn(n), "balanceOf counts the account's tokens");
	let p = pick_acc(5);
	let mut h = Handle::new(code(), c.into(), input(Action::IsApprovedForAll, &[wa(&o), wa(&p)]));
	sx::check(word(&run(&mut h).unwrap()) == wn(ERC721ApprovalsForAll::<T>::get(o, (COL, p)).unwrap_or(false) as u32), "isApprovedForAll is the operator approval in this collection");
	let mut h = Handle::new(code(), c.into(), input(Action::TotalSupply, &[]));
	sx::check(word(&run(&mut h).unwrap()) == wn(3), "totalSupply is the number of tokens");
	let mut h = Handle::new(code(), c.into(), input(Action::Owner, &[]));
	sx::check(word(&run(&mut h).unwrap()) == wa(&acc(4)), "owner is the collection's owner");
	sx::check(writes() == w0, "a view writes nothing");
}
/// ownedTokens lists the account's tokens from the cursor on, as many as asked for.
#[no_mangle]
pub extern "C" fn h_owned() {
	let t = setup();
	let o = pick_acc(3);
	let (lim, cur) = (sx::u16(), sx::u32());
	let mut h = Handle::new(code(), acc(3).into(), input(Action::OwnedTokens, &[wa(&o), wn(lim as u32), wn(cur)]));
	let r = run(&mut h).unwrap().output;
	let all: Vec<u32> = t.iter().copied().filter(|s| owner_of(*s) == Some(o)).collect();
	let from: Vec<u32> = all.iter().copied().filter(|s| *s >= cur).collect();
	let n = from.len().min(lim as usize);
	let want: Vec<u32> = from[..n].to_vec();
	let next = if n < from.len() { from[n] } else { 0 };
	let mut e: Vec<u8> = vec![];
	e.extend_from_slice(&wn(next));
	e.extend_from_slice(&wn(all.len() as u32));
	e.extend_from_slice(&wn(96));
	e.extend_from_slice(&wn(n as u32));
	for s in &want {
		e.extend_from_slice(&wn(*s));
	}
	if lim > 0 {
		sx::check(r.len() == e.len(), "as many tokens as asked for");
		sx::check(r[32..] == e[32..], "the account's tokens from the cursor on");
		let cu = u32::from_be_bytes([r[28], r[29], r[30], r[31]]);
		sx::check(r[..28] == [0; 28] && if n < from.len() && n > 0 { cu > want[n - 1] && cu <= next } else { cu == 0 }, "the next cursor leads to the first token left out");
		if n == 2 { sx::reach("two tokens"); }
		if next > 0 { sx::reach("more to come"); }
	}
}
/// Only the owner, an approved account or an operator moves a token, only from its owner, and only that token.
#[no_mangle]
pub extern "C" fn h_transfer_from() {
	let t = setup();
	approvals(&t);
	let lock = sx::bool();
	if lock {
		TokenLocks::<T>::insert((COL, t[0]), TokenLockReason::Listed(1));
	}
	let flag = sx::bool();
	UtilityFlags::<T>::insert(COL, CollectionUtilityFlags { transferable: flag, burnable: true, mintable: true });
	let (c, from, to) = (pick_acc(4), pick_acc(4), pick_acc(4));
	let (x, s) = serial();
	let own: Vec<Option<Acc>> = t.iter().map(|s| owner_of(*s)).collect();
	let ap: Vec<Option<Acc>> = t.iter().map(|s| ERC721Approvals::<T>::get((COL, *s))).collect();
	let may_ = s.map_or(false, |s| may(s, &c));
	let owned = s.map_or(false, |s| owner_of(s) == Some(from));
	let mut h = Handle::new(code(), c.into(), input(Action::TransferFrom, &[wa(&from), wa(&to), wu(x)]));
	let r = run(&mut h);
	for k in 0..3 {
		let hit = r.is_ok() && s == Some(t[k]);
		sx::check(owner_of(t[k]) == if hit { Some(to) } else { own[k] }, "exactly this token passes to the recipient");
		sx::check(ERC721Approvals::<T>::get((COL, t[k])) == if hit { None } else { ap[k] }, "the approval of a moved token ends");
	}
	if r.is_ok() {
		sx::check(may_, "only the owner, the approved account or an operator moves a token");
		sx::check(owned, "a token moves only from its owner");
		sx::check(flag && !(lock && s == Some(t[0])), "locked tokens do not move");
		sx::check(moved(&h, &from, &to, s.unwrap()), "one event names sender, recipient and token");
		if c == from { sx::reach("by the owner"); } else { sx::reach("by another"); }
	} else {
		sx::check(h.logs.is_empty(), "a refused transfer emits nothing");
		sx::check(!may_ || !owned || !flag || lock || from == to, "who may move a token can");
		sx::reach("refused");
	}
}
/// A safe transfer to a contract happens only if the contract accepts it, whatever it answers and whatever it does in between.
#[no_mangle]
pub extern "C" fn h_safe() {
	let t = setup();
	approvals(&t);
	let (c, from, to) = (pick_acc(4), acc(0), acc(1));
	let contract = sx::bool();
	if contract {
		AccountCodes::<T>::insert(H160::from(to), vec![1]);
	}
	let len = [0usize, 3, 4, 32][sx::choose(4) as usize];
	let out = sx::vec(len);
	let ret = sx::choose(3);
	let o2 = out.clone();
	let s = t[0];
	// what the receiver does with the token while it is asked
	let act = sx::choose(4);
	let with = sx::bool();
	let mut h = Handle::new(code(), c.into(), if !with { input(Action::SafeTransferFrom, &[wa(&from), wa(&to), wn(s)]) } else { input(Action::SafeTransferFromCallData, &[wa(&from), wa(&to), wn(s), wn(128), wn(3), [7; 32]]) });
	h.answer = Some(Box::new(move |_| {
		match act {
			// the owner's operator moves it on and back
			1 => {
				CollectionInfo::<T>::mutate(COL, |i| {
					let i = i.as_mut().unwrap();
					i.owned_tokens = bv(&[TokenOwnership { owner: acc(2), owned_serials: bv(&[s]) }]);
				});
				ERC721Approvals::<T>::remove((COL, s));
			},
			// the approvals end
			2 => {
				ERC721Approvals::<T>::remove((COL, s));
				ERC721ApprovalsForAll::<T>::remove(acc(0), (COL, acc(3)));
			},
			// it is locked
			3 => TokenLocks::<T>::insert((COL, s), TokenLockReason::Listed(1)),
			_ => {},
		}
		let e = match ret {
			0 => ExitReason::Succeed(ExitSucceed::Returned),
			1 => ExitReason::Revert(ExitRevert::Reverted),
			_ => ExitReason::Error(ExitError::OutOfGas),
		};
		(e, o2.clone())
	}));
	let may_ = may(s, &c);
	let r = run(&mut h);
	let accepts = !contract || (ret == 0 && len >= 4 && out[..4] == ON_ERC721_RECEIVED_FUNCTION_SELECTOR);
	if r.is_ok() {
		sx::check(may_, "only the owner, the approved account or an operator moves a token");
		sx::check(accepts, "a contract must accept the token");
		sx::check(h.calls.len() == contract as usize, "a contract is asked once");
		if contract {
			sx::check(act == 0 || (act == 2 && c == from), "what the receiver changed in between counts");
			sx::check(h.calls[0].0 == H160::from(to) && h.calls[0].1 == H160::from(c) && h.calls[0].2.is_zero(), "the receiver is asked, for the caller, without value");
			sx::check(!h.calls[0].4, "the receiver may act when it is asked");
			let mut want = input(Action::OnErc721Received, &[wa(&c), wa(&from), wn(s), wn(128), wn(if with { 3 } else { 0 })]);
			if with {
				want.extend_from_slice(&[7, 7, 7]);
				want.extend_from_slice(&[0; 29]);
			}
			sx::check(h.calls[0].3 == want, "the receiver is told operator, sender, token and data");
			sx::reach("accepted");
		} else {
			sx::reach("not a contract");
		}
		sx::check(owner_of(s) == Some(to) && ERC721Approvals::<T>::get((COL, s)).is_none(), "the token passes to the recipient");
		sx::check(moved(&h, &from, &to, s), "one event names sender, recipient and token");
	} else {
		sx::check(h.logs.is_empty(), "a refused transfer emits nothing");
		sx::check(owner_of(s) == Some(from), "a refused transfer moves nothing");
		sx::check(!may_ || !accepts || (contract && act != 0), "who may move a token can, to a receiver that accepts it");
		sx::reach("refused");
	}
}
/// approve and setApprovalForAll set exactly the approval asked for.
#[no_mangle]
pub extern "C" fn h_approve() {
	let t = setup();
	approvals(&t);
	let (c, to) = (pick_acc(5), pick_acc(5));
	let (x, s) = serial();
	let ap: Vec<Option<Acc>> = t.iter().map(|s| ERC721Approvals::<T>::get((COL, *s))).collect();
	let all = sx::bool();
	let on = sx::bool();
	let can = s.map_or(false, |s| owner_of(s).map_or(false, |o| o == c || ERC721ApprovalsForAll::<T>::get(o, (COL, c)).unwrap_or(false)));
	let (a, b) = (pick_acc(5), pick_acc(5));
	let was = ERC721ApprovalsForAll::<T>::get(a, (COL, b)).unwrap_or(false);
	let mut h = Handle::new(code(), c.into(), if all { input(Action::SetApprovalForAll, &[wa(&to), wn(on as u32)]) } else { input(Action::Approve, &[wa(&to), wu(x)]) });
	let r = run(&mut h);
	for k in 0..3 {
		let hit = r.is_ok() && !all && s == Some(t[k]);
		sx::check(ERC721Approvals::<T>::get((COL, t[k])) == if hit { Some(to) } else { ap[k] }, "exactly this token's approval is set");
	}
	let set = r.is_ok() && all && a == c && b == to;
	sx::check(ERC721ApprovalsForAll::<T>::get(a, (COL, b)).unwrap_or(false) == if set { on } else { was }, "exactly this operator's approval is set");
	if r.is_ok() {
		if all {
			sx::reach("an operator");
			sx::check(h.logs.len() == 1 && h.logs[0].address == code() && h.logs[0].topics == vec![H256(SELECTOR_LOG_APPROVAL_FOR_ALL), H256(wa(&c)), H256(wa(&to))] && h.logs[0].data == wn(on as u32).to_vec(), "one event names owner, operator and approval");
		} else {
			sx::reach("a token");
			sx::check(can, "only the owner or an operator approves");
			sx::check(h.logs.len() == 1 && h.logs[0].address == code() && h.logs[0].topics == vec![H256(SELECTOR_LOG_APPROVAL), H256(wa(&c)), H256(wa(&to)), H256(wn(s.unwrap()))], "one event names caller, approved account and token");
		}
	} else {
		sx::check(h.logs.is_empty(), "a refused approval emits nothing");
		sx::check(c == to || (!all && !can), "who may approve can");
		sx::reach("refused");
	}
}
/// Only the owner, an approved account or an operator burns a token.
#[no_mangle]
pub extern "C" fn h_burn() {
	let t = setup();
	approvals(&t);
	let c = pick_acc(5);
	let (x, s) = serial();
	let own: Vec<Option<Acc>> = t.iter().map(|s| owner_of(*s)).collect();
	let may_ = s.map_or(false, |s| may(s, &c));
	let mut h = Handle::new(code(), c.into(), input(Action::Burn, &[wu(x)]));
	h.stat = sx::bool();
	let r = run(&mut h);
	for k in 0..3 {
		let hit = r.is_ok() && s == Some(t[k]);
		sx::check(owner_of(t[k]) == if hit { None } else { own[k] }, "exactly this token is burnt");
		if hit {
			sx::check(moved(&h, &own[k].unwrap(), &Acc::from(H160([0; 20])), s.unwrap()), "one event names the owner and the token");
		}
	}
	if r.is_ok() {
		sx::check(may_, "only the owner, the approved account or an operator burns a token");
		sx::check(!h.stat, "a static call burns nothing");
		sx::check(info().collection_issuance == 2, "the supply goes down by one");
		sx::reach("burnt");
	} else {
		sx::check(!may_ || h.stat, "who may burn a token can");
		sx::check(info().collection_issuance == 3, "a refused burn changes nothing");
		sx::reach("refused");
	}
}
/// mint creates exactly the number of tokens asked for, for the owner of the collection.
#[no_mangle]
pub extern "C" fn h_mint() {
	setup();
	let c = pick_acc(5);
	let to = pick_acc(4);
	let n0 = info().next_serial_number;
	let (x, n) = serial();
	let b = pallet_nft::Pallet::<T>::token_balance_of(&to, COL);
	let mut h = Handle::new(code(), c.into(), input(Action::Mint, &[wa(&to), wu(x)]));
	let r = run(&mut h);
	if r.is_ok() {
		let n = n.unwrap();
		sx::check(c == acc(4), "only the collection's owner mints");
		sx::check(pallet_nft::Pallet::<T>::token_balance_of(&to, COL) == b + n && info().collection_issuance == 3 + n, "exactly the number of tokens asked for");
		sx::check(h.logs.len() == n as usize, "one event for each token");
		for (k, l) in h.logs.iter().enumerate() {
			sx::check(l.address == code() && l.topics == vec![H256(SELECTOR_LOG_TRANSFER), H256([0; 32]), H256(wa(&to)), H256(wn(n0 + k as u32))], "each event names recipient and token");
			sx::check(owner_of(n0 + k as u32) == Some(to), "the tokens of the events are the recipient's");
		}
		sx::reach("minted");
	} else {
		sx::check(info().collection_issuance == 3 && h.logs.is_empty(), "a refused mint changes nothing");
		sx::check(c != acc(4) || n.map_or(true, |n| n == 0 || n > 3 || n0.checked_add(n).map_or(true, |m| m > 8)), "the collection's owner can mint");
		sx::reach("refused");
	}
}
/// Only the owner of the collection administers it, with the values given.
#[no_mangle]
pub extern "C" fn h_admin() {
	setup();
	let c = pick_acc(5);
	let k = sx::choose(7);
	let x = sx::u32();
	let to = pick_acc(4);
	let mut h = Handle::new(
		code(),
		c.into(),
		match k {
			0 => input(Action::SetMaxSupply, &[wn(x)]),
			1 => input(Action::SetBaseURI, &[wn(32), wn(1), { let mut w = [0; 32]; w[0] = b'q'; w }]),
			2 => input(Action::TransferOwnership, &[wa(&to)]),
			3 => input(Action::RenounceOwnership, &[]),
			4 => input(Action::TogglePublicMint, &[wn((x & 1) as u32)]),
			5 => input(Action::SetMintFee, &[wa(&T::runtime_id_to_evm_id(5, &[0xCC; 4]).0.into()), wn(x)]),
			_ => input(Action::EnableXls20Compatibility, &[]),
		},
	);
	let i0 = info();
	let r = run(&mut h);
	let i = info();
	let pm = pallet_nft::PublicMintInfo::<T>::get(COL).unwrap_or_default();
	if r.is_ok() {
		sx::reach("done");
		sx::check(c == acc(4), "only the collection's owner administers it");
		sx::check(h.logs.len() == 1 && h.logs[0].address == code(), "one event");
		sx::check(i.max_issuance == if k == 0 { Some(x) } else { None }, "the maximum supply given");
		sx::check(i.metadata_scheme.0.to_vec() == if k == 1 { b"q".to_vec() } else { b"m".to_vec() }, "the base URI given");
		sx::check(i.owner == match k { 2 => to, 3 => Acc::from(H160([0; 20])), _ => acc(4) }, "the owner given");
		sx::check(pm.enabled == (k == 4 && x & 1 == 1), "public minting as given");
		sx::check(pm.pricing_details == if k == 5 && x > 0 { Some((5, x as u128)) } else { None }, "the mint fee given");
		sx::check(i.cross_chain_compatibility.xrpl == (k == 6), "XLS-20 as asked");
		sx::check(i.owned_tokens == i0.owned_tokens && i.collection_issuance == 3, "tokens are untouched");
	} else {
		sx::reach("refused");
		sx::check(i == i0 && !pm.enabled && pm.pricing_details.is_none() && h.logs.is_empty(), "a refused call changes nothing");
		sx::check(c != acc(4) || (k == 0 && x < 3) || k == 6, "the collection's owner can");
	}
}
/// Calls that change something refuse ether and static contexts.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	let t = setup();
	let n = sx::choose(23);
	let z = wa(&acc(1));
	let ws = wn(t[0]);
	let inp = match n {
		0 => input(Action::BalanceOf, &[z]),
		1 => input(Action::OwnerOf, &[ws]),
		2 => input(Action::GetApproved, &[ws]),
		3 => input(Action::IsApprovedForAll, &[z, z]),
		4 => input(Action::Name, &[]),
		5 => input(Action::Symbol, &[]),
		6 => input(Action::TokenURI, &[wn(3)]),
		7 => input(Action::Owner, &[]),
		8 => input(Action::TotalSupply, &[]),
		9 => input(Action::OwnedTokens, &[z, wn(2), wn(0)]),
		10 => input(Action::SupportsInterface, &[[0x80; 32]]),
		11 => input(Action::TransferFrom, &[wa(&acc(0)), z, ws]),
		12 => input(Action::SafeTransferFrom, &[wa(&acc(0)), z, ws]),
		13 => input(Action::Approve, &[z, ws]),
		14 => input(Action::SetApprovalForAll, &[z, wn(1)]),
		15 => input(Action::Burn, &[ws]),
		16 => input(Action::Mint, &[z, wn(1)]),
		17 => input(Action::SetMaxSupply, &[wn(50)]),
		18 => input(Action::TransferOwnership, &[z]),
		19 => input(Action::RenounceOwnership, &[]),
		20 => input(Action::TogglePublicMint, &[wn(1)]),
		21 => input(Action::SetMintFee, &[wa(&T::runtime_id_to_evm_id(5, &[0xCC; 4]).0.into()), wn(3)]),
		_ => input(Action::SetBaseURI, &[wn(32), wn(1), { let mut w = [0; 32]; w[0] = b'q'; w }]),
	};
	let mut h = Handle::new(code(), acc(if n >= 16 { 4 } else { 0 }).into(), inp);
	h.stat = sx::bool();
	h.context.apparent_value = U256::from(sx::u128());
	let w0 = writes();
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(h.context.apparent_value.is_zero(), "no function of the collection accepts value");
		if h.stat || n <= 10 {
			sx::check(writes() == w0 && h.logs.is_empty(), "a view or a static call writes nothing");
		}
		if h.stat { sx::reach("a static view"); }
		if n > 10 { sx::reach("a call"); }
	} else {
		sx::check(!h.context.apparent_value.is_zero() || (h.stat && n > 10) || (n == 16 && info().next_serial_number >= 8), "every function answers");
		sx::reach("refused");
	}
}
/// Any input at all is answered or reverted: nothing panics, and gas is only ever spent.
#[no_mangle]
pub extern "C" fn h_any_input() {
	setup();
	let len = [0, 3, 4, 36, 68][sx::choose(5) as usize];
	let inp = sx::vec(len);
	// tokenURI writes the number in decimal: see h_modifiers
	let uri: u32 = Action::TokenURI.into();
	sx::assume(len < 4 || inp[..4] != uri.to_be_bytes());
	let mut h = Handle::new(code(), acc(4).into(), inp);
	h.gas = if sx::bool() { u64::MAX } else { sx::u64() };
	let g = h.gas;
	let r = run(&mut h);
	sx::check(h.gas <= g, "gas is only spent");
	if r.is_ok() {
		sx::reach("answered");
	} else {
		sx::reach("reverted");
	}
}
/// Asking again for XLS-20 tokens: only the owner, only for existing tokens, however many are named.
#[no_mangle]
pub extern "C" fn h_xls20() {
	let t = setup();
	CollectionInfo::<T>::mutate(COL, |i| i.as_mut().unwrap().cross_chain_compatibility.xrpl = sx::bool());
	let compatible = info().cross_chain_compatibility.xrpl;
	pallet_xls20::Relayer::<T>::put(acc(9));
	sx::assume(info().next_serial_number <= 8);
	let c = if sx::bool() { acc(4) } else { acc(0) };
	let n = sx::choose(4) as usize;
	let mut words = vec![wn(32), wn(n as u32)];
	let mut l = vec![];
	for k in 0..n {
		let (x, s) = if k == 0 { serial() } else { (U256::from(t[k - 1]), Some(t[k - 1])) };
		words.push(wu(x));
		l.push(s);
	}
	if sx::bool() {
		pallet_xls20::Xls20TokenMap::<T>::insert(COL, t[1], [1u8; 32]);
	}
	let mut h = Handle::new(code(), c.into(), input(Action::ReRequestXls20Mint, &words));
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(c == acc(4) && compatible && n > 0 && n <= 2, "only the owner of a compatible collection asks, within the limit");
		for s in &l {
			sx::check(s.map_or(false, |s| owner_of(s).is_some() && !pallet_xls20::Xls20TokenMap::<T>::contains_key(COL, s)), "only for tokens that have none yet");
		}
		sx::check(h.logs.len() == n, "one event for each token");
		sx::reach("asked");
	} else {
		sx::check(h.logs.is_empty(), "a refused request emits nothing");
		sx::reach("refused");
	}
}
/// Only addresses of existing collections are collections.
#[no_mangle]
pub extern "C" fn h_address() {
	setup();
	let a = H160(sx::bytes::<20>());
	let is = a.0[..4] == [0xAA; 4] && u32::from_be_bytes([a.0[4], a.0[5], a.0[6], a.0[7]]) == COL;
	let s = Erc721PrecompileSet::<T>::new();
	match s.is_precompile(a, 0) {
		IsPrecompileResult::Answer { is_precompile, .. } => sx::check(is_precompile == is, "an address is a collection exactly when it encodes an existing one"),
		_ => sx::check(false, "the question is answered"),
	}
	let mut h = Handle::new(a, acc(0).into(), input(Action::TotalSupply, &[]));
	let r = s.execute(&mut h);
	sx::check(r.is_some() == is, "exactly the addresses of existing collections are answered");
	if is { sx::reach("a collection"); }
	if !is { sx::reach("another address"); }
}
