#![allow(non_snake_case)]
use frame_support::BoundedVec;
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_evm_precompiles_erc1155::*;
use pallet_sft::{SftCollectionInfo, SftCollectionInformation, SftTokenBalance, SftTokenInformation, TokenInfo};
use pallet_token_approvals::ERC1155ApprovalsForAll;
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_primitives::*;
use sp_core::{H160, H256, U256};
use vstub::evm::*;

calls!(T, RtCall { Sft: pallet_sft::Call<T>, Appr: pallet_token_approvals::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	MaxTok: u32 = 8;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 3;
	SerialLim: u32 = 2;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = pallet_token_approvals::Pallet<T>;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_sft::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = SerialLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = Rec;
}
impl pallet_token_approvals::Config for T {
	type NFTExt = pallet_nft::Pallet<T>;
	type WeightInfo = ();
}
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
const COL: u32 = (7 << 10) | 100;
const IDS: [u32; 2] = [3, 7];
fn code() -> H160 {
	T::runtime_id_to_evm_id(COL, &[0xBB; 4]).into()
}
fn name<N: frame_support::traits::Get<u32>>(b: &[u8]) -> BoundedVec<u8, N> {
	BoundedVec::try_from(b.to_vec()).ok().unwrap()
}
fn bal(w: &Acc, id: u32) -> u128 {
	TokenInfo::<T>::get((COL, id)).and_then(|t| t.owned_tokens.iter().find(|(o, _)| o == w).map(|(_, b)| b.free_balance)).unwrap_or(0)
}
fn held(w: &Acc, id: u32) -> u128 {
	TokenInfo::<T>::get((COL, id)).and_then(|t| t.owned_tokens.iter().find(|(o, _)| o == w).map(|(_, b)| b.reserved_balance)).unwrap_or(0)
}
fn supply(id: u32) -> u128 {
	TokenInfo::<T>::get((COL, id)).map_or(0, |t| t.token_issuance)
}
fn bals() -> Vec<u128> {
	let mut v = vec![];
	for id in IDS {
		for k in 0..4 {
			v.push(bal(&acc(k), id));
		}
		v.push(held(&acc(0), id));
		v.push(supply(id));
	}
	v
}
fn token(id: u32, n: u8) {
	let mut v = vec![];
	let mut sum = 0u128;
	for k in 0..n {
		let (f, r) = (sx::u128(), if k == 0 { sx::u128() } else { 0 });
		sx::assume(f <= (u128::MAX >> 1) - sum);
		sum += f;
		sx::assume(r <= (u128::MAX >> 1) - sum);
		sum += r;
		sx::assume(f > 0 || r > 0);
		v.push((acc(k), SftTokenBalance { free_balance: f, reserved_balance: r }));
	}
	let max = if sx::bool() { Some(sx::u128()) } else { None };
	sx::assume(max.map_or(true, |m| sum <= m));
	TokenInfo::<T>::insert((COL, id), SftTokenInformation::<Acc, StrLim, MaxOwners> { token_name: name(b"t"), max_issuance: max, token_issuance: sum, owned_tokens: BoundedVec::try_from(v).ok().unwrap() });
}
/// A collection of account 5 with two tokens: accounts 0 and 1 hold the one, account 0 the other. Account 3 may be an operator of account 0.
fn setup() {
	SftCollectionInfo::<T>::insert(
		COL,
		SftCollectionInformation::<Acc, StrLim> { collection_owner: acc(5), collection_name: name(b"c"), metadata_scheme: MetadataScheme(name(b"m")), royalties_schedule: None, origin_chain: OriginChain::Root, next_serial_number: 8 },
	);
	token(3, 2);
	token(7, 1);
	if sx::bool() {
		ERC1155ApprovalsForAll::<T>::insert(acc(0), (if sx::bool() { COL } else { 9 }, acc(3)), true);
	}
}
fn operator(c: &Acc, from: &Acc) -> bool {
	c == from || ERC1155ApprovalsForAll::<T>::get(from, (COL, *c)).unwrap_or(false)
}
fn input(selector: Action, words: &[[u8; 32]]) -> Vec<u8> {
	let n: u32 = selector.into();
	let mut v = n.to_be_bytes().to_vec();
	for w in words {
		v.extend_from_slice(w);
	}
	v
}
fn wa(a: &Acc) -> [u8; 32] {
	let mut w = [0; 32];
	w[12..].copy_from_slice(&H160::from(*a).0);
	w
}
fn wu(x: U256) -> [u8; 32] {
	let mut w = [0; 32];
	x.to_big_endian(&mut w);
	w
}
fn wn(x: u32) -> [u8; 32] {
	wu(U256::from(x))
}
fn run(h: &mut Handle) -> PrecompileResult {
	with_layer(|| Erc1155PrecompileSet::<T>::new().execute(h).expect("the collection exists"))
}
fn word(o: &PrecompileOutput) -> [u8; 32] {
	sx::check(o.output.len() == 32, "the answer is one word");
	let mut w = [0; 32];
	w.copy_from_slice(&o.output);
	w
}
fn any256() -> (U256, Option<u128>) {
	let (hi, lo) = (sx::u128(), sx::u128());
	((U256::from(hi) << 128usize) | U256::from(lo), if hi == 0 { Some(lo) } else { None })
}
/// One of the two tokens, or any other number.
fn id() -> (U256, Option<u32>) {
	match sx::choose(4) {
		0 => (U256::from(3), Some(3)),
		1 => (U256::from(7), Some(7)),
		2 => (U256::from(4), Some(4)),
		_ => {
			let (x, s) = any256();
			sx::assume(x > U256::from(u32::MAX));
			(x, None)
		},
	}
}
fn arrays(h: &[[u8; 32]], a: &[U256], b: &[U256], data: bool) -> Vec<[u8; 32]> {
	let mut v: Vec<[u8; 32]> = h.to_vec();
	let base = (h.len() + 2 + data as usize) * 32;
	v.push(wn(base as u32));
	v.push(wn((base + 32 + 32 * a.len()) as u32));
	if data {
		v.push(wn((base + 64 + 32 * (a.len() + b.len())) as u32));
	}
	v.push(wn(a.len() as u32));
	v.extend(a.iter().map(|x| wu(*x)));
	v.push(wn(b.len() as u32));
	v.extend(b.iter().map(|x| wu(*x)));
	if data {
		v.push(wn(2));
		let mut d = [0; 32];
		d[0] = 8;
		d[1] = 9;
		v.push(d);
	}
	v
}
fn cat(w: &[[u8; 32]]) -> Vec<u8> {
	let mut v = vec![];
	for x in w {
		v.extend_from_slice(x);
	}
	v
}
fn event(h: &Handle, batch: bool, c: &Acc, from: &Acc, to: &Acc, ids: &[U256], xs: &[U256]) -> bool {
	let data = if batch { cat(&arrays(&[], ids, xs, false)) } else { cat(&[wu(ids[0]), wu(xs[0])]) };
	h.logs.len() == 1
		&& h.logs[0].address == code()
		&& h.logs[0].topics == vec![H256(if batch { SELECTOR_LOG_TRANSFER_BATCH } else { SELECTOR_LOG_TRANSFER_SINGLE }), H256(wa(c)), H256(wa(from)), H256(wa(to))]
		&& h.logs[0].data == data
}
fn zero() -> Acc {
	Acc::from(H160([0; 20]))
}

/// The views answer what the tokens and the approvals hold, and change nothing.
#[no_mangle]
pub extern "C" fn h_views() {
	setup();
	let w0 = writes();
	let (x, s) = id();
	let (o, p) = (pick_acc(4), pick_acc(4));
	let mut h = Handle::new(code(), acc(3).into(), input(Action::BalanceOf, &[wa(&o), wu(x)]));
	match run(&mut h) {
		Ok(r) => {
			sx::check(s.is_some() && word(&r) == wu(U256::from(bal(&o, s.unwrap()))), "balanceOf is what the account can move");
			sx::reach("an id");
		},
		Err(_) => {
			sx::check(s.is_none(), "balanceOf answers for every token");
			sx::reach("no id");
		},
	}
	let mut h = Handle::new(code(), acc(3).into(), input(Action::TotalSupply, &[wu(x)]));
	match run(&mut h) {
		Ok(r) => sx::check(word(&r) == wu(U256::from(supply(s.unwrap()))), "totalSupply is the token's issuance"),
		Err(_) => sx::check(s.is_none(), "totalSupply answers for every token"),
	}
	let mut h = Handle::new(code(), acc(3).into(), input(Action::Exists, &[wu(x)]));
	match run(&mut h) {
		Ok(r) => sx::check(word(&r) == wn((s == Some(3) || s == Some(7)) as u32), "exists says which tokens exist"),
		Err(_) => sx::check(s.is_none(), "exists answers for every token"),
	}
	let mut h = Handle::new(code(), acc(3).into(), input(Action::IsApprovedForAll, &[wa(&o), wa(&p)]));
	sx::check(word(&run(&mut h).unwrap()) == wn(ERC1155ApprovalsForAll::<T>::get(o, (COL, p)).unwrap_or(false) as u32), "isApprovedForAll is the operator approval in this collection");
	let mut h = Handle::new(code(), acc(3).into(), input(Action::Owner, &[]));
	sx::check(word(&run(&mut h).unwrap()) == wa(&acc(5)), "owner is the collection's owner");
	let mut h = Handle::new(code(), acc(3).into(), input(Action::BalanceOfBatch, &arrays(&[], &[U256::from_big_endian(&wa(&o)), U256::from_big_endian(&wa(&p))], &[U256::from(3), U256::from(7)], false)));
	sx::check(run(&mut h).unwrap().output == cat(&[wn(32), wn(2), wu(U256::from(bal(&o, 3))), wu(U256::from(bal(&p, 7)))]), "balanceOfBatch answers in order");
	sx::check(writes() == w0, "a view writes nothing");
}
/// setApprovalForAll sets exactly the operator asked for.
#[no_mangle]
pub extern "C" fn h_approve() {
	setup();
	let (c, to, a, b) = (pick_acc(4), pick_acc(4), pick_acc(4), pick_acc(4));
	let on = sx::bool();
	let was = ERC1155ApprovalsForAll::<T>::get(a, (COL, b)).unwrap_or(false);
	let mut h = Handle::new(code(), c.into(), input(Action::SetApprovalForAll, &[wa(&to), wn(on as u32)]));
	let r = run(&mut h);
	let set = r.is_ok() && a == c && b == to;
	sx::check(ERC1155ApprovalsForAll::<T>::get(a, (COL, b)).unwrap_or(false) == if set { on } else { was }, "exactly this operator's approval is set");
	if r.is_ok() {
		sx::reach("set");
		sx::check(h.logs.len() == 1 && h.logs[0].address == code() && h.logs[0].topics == vec![H256(SELECTOR_LOG_APPROVAL_FOR_ALL), H256(wa(&c)), H256(wa(&to))] && h.logs[0].data == wn(on as u32).to_vec(), "one event names owner, operator and approval");
	} else {
		sx::reach("refused");
		sx::check(c == to && h.logs.is_empty(), "only approving oneself is refused");
	}
}
fn moves(b: &[u128], from: Option<&Acc>, to: Option<&Acc>, l: &[(u32, u128)]) {
	// exact balances after moving every entry
	let b1 = bals();
	for (n, id) in IDS.iter().enumerate() {
		let t: u128 = l.iter().filter(|e| e.0 == *id).map(|e| e.1).sum();
		for k in 0..4u8 {
			let mut w = b[n * 6 + k as usize];
			if from == Some(&acc(k)) {
				sx::check(w >= t, "only what the holder can move is taken");
				w -= t;
			}
			if to == Some(&acc(k)) {
				w += t;
			}
			sx::check(b1[n * 6 + k as usize] == w, "exactly the amounts pass from the holder to the recipient");
		}
		sx::check(b1[n * 6 + 4] == b[n * 6 + 4], "reserved tokens stay");
		let mut s = b[n * 6 + 5];
		if from.is_none() {
			s += t;
		}
		if to.is_none() {
			s -= t;
		}
		sx::check(b1[n * 6 + 5] == s, "the issuance changes only by minting and burning");
	}
}
/// Transfers move exactly the amounts from a holder who made the call or approved the caller.
fn transfer(batch: bool, n: usize) {
	setup();
	let (c, from, to) = (pick_acc(4), pick_acc(2), if sx::bool() { pick_acc(3) } else { zero() });
	let (mut ids, mut xs, mut l, mut fit) = (vec![], vec![], vec![], true);
	for k in 0..n {
		let (i, s) = if n < 3 { id() } else { (U256::from([3, 7, 4][k]), Some([3, 7, 4][k])) };
		let (x, v) = any256();
		ids.push(i);
		xs.push(x);
		if let (Some(s), Some(v)) = (s, v) {
			l.push((s, v));
		} else {
			fit = false;
		}
	}
	let b = bals();
	let inp = if batch {
		input(Action::SafeBatchTransferFrom, &arrays(&[wa(&from), wa(&to)], &ids, &xs, true))
	} else {
		input(Action::SafeTransferFrom, &[wa(&from), wa(&to), wu(ids[0]), wu(xs[0]), wn(160), wn(0)])
	};
	let mut h = Handle::new(code(), c.into(), inp);
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(fit, "more than can exist is not moved");
		sx::check(operator(&c, &from), "only the holder or its operator moves tokens");
		sx::check(to != zero(), "nothing moves to the zero address");
		moves(&b, Some(&from), Some(&to), &l);
		sx::check(event(&h, batch, &c, &from, &to, &ids, &xs), "one event names operator, sender, recipient, tokens and amounts");
		if c == from { sx::reach("by the holder"); } else { sx::reach("by an operator"); }
	} else {
		sx::check(bals() == b && h.logs.is_empty(), "a refused transfer changes nothing");
		let f0 = |s: u32| b[if s == 3 { 0 } else { 6 } + if from == acc(0) { 0 } else { 1 }];
		let can = fit && l.iter().all(|(s, v)| *s != 4 && *v > 0 && *v <= f0(*s)) && (n < 2 || l[0].0 != l[1].0);
		sx::check(!operator(&c, &from) || to == zero() || from == to || !can || n == 0 || n > 2 || l.iter().any(|e| e.0 == 3 && to == acc(2)), "who can move tokens may");
		sx::reach("refused");
	}
}
#[no_mangle]
pub extern "C" fn h_transfer() {
	transfer(false, 1)
}
#[no_mangle]
pub extern "C" fn h_batch_2() {
	transfer(true, 2)
}
#[no_mangle]
pub extern "C" fn h_batch_1() {
	transfer(true, 1)
}
#[no_mangle]
pub extern "C" fn h_batch_3() {
	transfer(true, 3)
}
/// A transfer to a contract happens only if the contract accepts it, whatever it answers and does in between.
#[no_mangle]
pub extern "C" fn h_accept() {
	setup();
	let (c, from, to) = (if sx::bool() { acc(0) } else { acc(3) }, acc(0), acc(1));
	let contract = sx::bool();
	if contract {
		AccountCodes::<T>::insert(H160::from(to), vec![1]);
	}
	let batch = sx::bool();
	let len = [0usize, 3, 4, 32][sx::choose(4) as usize];
	let out = sx::vec(len);
	let ret = sx::choose(3);
	let o2 = out.clone();
	let act = sx::bool();
	let v = sx::u128();
	let x = U256::from(v);
	let b = bals();
	let inp = if batch {
		input(Action::SafeBatchTransferFrom, &arrays(&[wa(&from), wa(&to)], &[U256::from(3)], &[x], true))
	} else {
		input(Action::SafeTransferFrom, &[wa(&from), wa(&to), wn(3), wu(x), wn(160), wn(2), { let mut d = [0; 32]; d[0] = 8; d[1] = 9; d }])
	};
	let mut h = Handle::new(code(), c.into(), inp);
	h.answer = Some(Box::new(move |_| {
		if act {
			ERC1155ApprovalsForAll::<T>::remove(acc(0), (COL, acc(3)));
		}
		let e = match ret {
			0 => ExitReason::Succeed(ExitSucceed::Returned),
			1 => ExitReason::Revert(ExitRevert::Reverted),
			_ => ExitReason::Error(ExitError::OutOfGas),
		};
		(e, o2.clone())
	}));
	let magic: [u8; 4] = if batch { ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR } else { ON_ERC1155_RECEIVED_FUNCTION_SELECTOR };
	let accepts = !contract || (ret == 0 && len >= 4 && out[..4] == magic);
	let op0 = operator(&c, &from);
	let r = run(&mut h);
	if contract && h.calls.len() == 1 {
		let k = &h.calls[0];
		sx::check(k.0 == H160::from(to) && k.1 == H160::from(c) && k.2.is_zero() && !k.4, "the receiver is asked, for the caller, without value");
		let mut want = magic.to_vec();
		if batch {
			want.extend(cat(&arrays(&[wa(&c), wa(&from)], &[U256::from(3)], &[x], true)));
		} else {
			want.extend(cat(&[wa(&c), wa(&from), wn(3), wu(x), wn(160), wn(2), { let mut d = [0; 32]; d[0] = 8; d[1] = 9; d }]));
		}
		sx::check(k.3 == want, "the receiver is told operator, sender, tokens, amounts and data");
	}
	if r.is_ok() {
		sx::check(accepts, "a contract must accept the tokens");
		sx::check(h.calls.len() == contract as usize, "a contract is asked once");
		sx::check(op0 && (c == from || !(contract && act)), "what the receiver changed in between counts");
		moves(&b, Some(&from), Some(&to), &[(3, v)]);
		if contract { sx::reach("accepted"); } else { sx::reach("not a contract"); }
	} else {
		sx::check(bals() == b && h.logs.is_empty(), "a refused transfer changes nothing");
		sx::check(!accepts || !op0 || (contract && act && c != from) || v == 0 || v > b[0], "who can move tokens may, to a receiver that accepts them");
		sx::reach("refused");
	}
}
/// Burning takes exactly the amounts from a holder who made the call or approved the caller.
fn burn(batch: bool, n: usize) {
	setup();
	let (c, from) = (pick_acc(4), pick_acc(2));
	let (mut ids, mut xs, mut l, mut fit) = (vec![], vec![], vec![], true);
	for _ in 0..n {
		let ((i, s), (x, v)) = (id(), any256());
		ids.push(i);
		xs.push(x);
		if let (Some(s), Some(v)) = (s, v) {
			l.push((s, v));
		} else {
			fit = false;
		}
	}
	let b = bals();
	let inp = if batch { input(Action::BurnBatch, &arrays(&[wa(&from)], &ids, &xs, false)) } else { input(Action::Burn, &[wa(&from), wu(ids[0]), wu(xs[0])]) };
	let mut h = Handle::new(code(), c.into(), inp);
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(fit, "more than can exist is not burnt");
		sx::check(operator(&c, &from), "only the holder or its operator burns tokens");
		moves(&b, Some(&from), None, &l);
		sx::check(event(&h, batch, &c, &from, &zero(), &ids, &xs), "one event names operator, holder, tokens and amounts");
		if c == from { sx::reach("by the holder"); } else { sx::reach("by an operator"); }
	} else {
		sx::check(bals() == b && h.logs.is_empty(), "a refused burn changes nothing");
		let f0 = |s: u32| b[if s == 3 { 0 } else { 6 } + if from == acc(0) { 0 } else { 1 }];
		let can = fit && l.iter().all(|(s, v)| *s != 4 && *v > 0 && *v <= f0(*s)) && (n < 2 || l[0].0 != l[1].0);
		sx::check(!operator(&c, &from) || !can || n == 0 || n > 2, "who can burn tokens may");
		sx::reach("refused");
	}
}
#[no_mangle]
pub extern "C" fn h_burn() {
	burn(false, 1)
}
#[no_mangle]
pub extern "C" fn h_burn_batch() {
	burn(true, 2)
}
/// Minting creates exactly the amounts for the recipient, for the owner of the collection only.
fn mint(batch: bool, n: usize) {
	setup();
	let (c, to) = (if sx::bool() { acc(5) } else { acc(0) }, pick_acc(3));
	let (mut ids, mut xs, mut l, mut fit) = (vec![], vec![], vec![], true);
	for _ in 0..n {
		let ((i, s), (x, v)) = (id(), any256());
		ids.push(i);
		xs.push(x);
		if let (Some(s), Some(v)) = (s, v) {
			l.push((s, v));
		} else {
			fit = false;
		}
	}
	let b = bals();
	let inp = if batch { input(Action::MintBatch, &arrays(&[wa(&to)], &ids, &xs, false)) } else { input(Action::Mint, &[wa(&to), wu(ids[0]), wu(xs[0])]) };
	let mut h = Handle::new(code(), c.into(), inp);
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(fit && c == acc(5), "only the collection's owner mints");
		moves(&b, None, Some(&to), &l);
		sx::check(event(&h, batch, &c, &zero(), &to, &ids, &xs), "one event names operator, recipient, tokens and amounts");
		for id in IDS {
			let t = TokenInfo::<T>::get((COL, id)).unwrap();
			sx::check(t.max_issuance.map_or(true, |m| t.token_issuance <= m), "the maximum issuance is respected");
		}
		sx::reach("minted");
	} else {
		sx::check(bals() == b && h.logs.is_empty(), "a refused mint changes nothing");
		sx::reach("refused");
	}
}
#[no_mangle]
pub extern "C" fn h_mint() {
	mint(false, 1)
}
#[no_mangle]
pub extern "C" fn h_mint_batch() {
	mint(true, 2)
}
/// Creating a token: for the owner of the collection, as asked.
#[no_mangle]
pub extern "C" fn h_create() {
	setup();
	let c = if sx::bool() { acc(5) } else { acc(0) };
	let (x, v) = any256();
	let (m, mv) = any256();
	let to = if sx::bool() { acc(1) } else { zero() };
	let b = bals();
	let n = sx::choose(3) as usize * 6;
	let mut w = [0; 32];
	w[..n].copy_from_slice(&[b'z'; 12][..n]);
	let mut h = Handle::new(code(), c.into(), input(Action::CreateToken, &[wn(128), wu(x), wu(m), wa(&to), wn(n as u32), w]));
	let r = run(&mut h);
	sx::check(bals() == b, "other tokens are untouched");
	if let Ok(o) = r {
		sx::check(c == acc(5), "only the collection's owner creates tokens");
		sx::check(word(&o) == wn(8) && h.logs.len() == 1 && h.logs[0].topics == vec![H256(SELECTOR_LOG_TOKEN_CREATED), H256(wn(8))], "the new token's number is answered and announced");
		let t = TokenInfo::<T>::get((COL, 8)).unwrap();
		let max = mv.unwrap();
		sx::check(Some(t.token_issuance) == v && t.max_issuance == if max == 0 { None } else { Some(max) } && (max == 0 || t.token_issuance <= max), "issuance and maximum are as asked");
		sx::check(t.token_name.to_vec() == w[..n].to_vec(), "the name is as asked");
		let who = if to == zero() { acc(5) } else { to };
		sx::check(bal(&who, 8) == t.token_issuance, "the tokens are the named owner's");
		sx::reach("created");
	} else {
		sx::check(TokenInfo::<T>::get((COL, 8)).is_none() && h.logs.is_empty(), "a refused creation changes nothing");
		sx::check(c != acc(5) || n == 0 || n > 10 || v.is_none() || mv.map_or(true, |m| m != 0 && m < v.unwrap()), "the collection's owner can create tokens");
		sx::reach("refused");
	}
}
/// Only the owner of the collection administers it, with the values given.
#[no_mangle]
pub extern "C" fn h_admin() {
	setup();
	let c = if sx::bool() { acc(5) } else { acc(0) };
	let k = sx::choose(6);
	let x = sx::u128();
	let to = pick_acc(3);
	let mut h = Handle::new(
		code(),
		c.into(),
		match k {
			0 => input(Action::SetMaxSupply, &[wn(3), wu(U256::from(x))]),
			1 => input(Action::SetBaseURI, &[wn(32), wn(1), { let mut w = [0; 32]; w[0] = b'q'; w }]),
			2 => input(Action::TransferOwnership, &[wa(&to)]),
			3 => input(Action::RenounceOwnership, &[]),
			4 => input(Action::TogglePublicMint, &[wn(7), wn((x & 1) as u32)]),
			_ => input(Action::SetMintFee, &[wn(7), wa(&T::runtime_id_to_evm_id(5, &[0xCC; 4]).0.into()), wu(U256::from(x))]),
		},
	);
	let b = bals();
	let (i0, t3, t7) = (SftCollectionInfo::<T>::get(COL).unwrap(), TokenInfo::<T>::get((COL, 3)).unwrap(), TokenInfo::<T>::get((COL, 7)).unwrap());
	let r = run(&mut h);
	let (i, s3, s7) = (SftCollectionInfo::<T>::get(COL).unwrap(), TokenInfo::<T>::get((COL, 3)).unwrap(), TokenInfo::<T>::get((COL, 7)).unwrap());
	let p3 = pallet_sft::PublicMintInfo::<T>::get((COL, 3)).unwrap_or_default();
	let p7 = pallet_sft::PublicMintInfo::<T>::get((COL, 7)).unwrap_or_default();
	sx::check(bals() == b && s7 == t7 && !p3.enabled && p3.pricing_details.is_none(), "balances and other tokens are untouched");
	if r.is_ok() {
		sx::reach("done");
		sx::check(c == acc(5), "only the collection's owner administers it");
		sx::check(h.logs.len() == 1 && h.logs[0].address == code(), "one event");
		sx::check(s3.max_issuance == if k == 0 { Some(x) } else { t3.max_issuance } && (k != 0 || (x >= t3.token_issuance && x > 0)), "the maximum supply given");
		sx::check(i.metadata_scheme.0.to_vec() == if k == 1 { b"q".to_vec() } else { b"m".to_vec() }, "the base URI given");
		sx::check(i.collection_owner == match k { 2 => to, 3 => zero(), _ => acc(5) }, "the owner given");
		sx::check(p7.enabled == (k == 4 && x & 1 == 1), "public minting as given");
		sx::check(p7.pricing_details == if k == 5 && x > 0 { Some((5, x)) } else { None }, "the mint fee given");
	} else {
		sx::reach("refused");
		sx::check(i == i0 && s3 == t3 && !p7.enabled && p7.pricing_details.is_none() && h.logs.is_empty(), "a refused call changes nothing");
		sx::check(c != acc(5) || (k == 0 && (x == 0 || x < t3.token_issuance || t3.max_issuance.is_some())), "the collection's owner can");
	}
}
/// Calls that change something refuse ether and static contexts.
#[no_mangle]
pub extern "C" fn h_modifiers() {
	setup();
	let n = sx::choose(21);
	let z = wa(&acc(1));
	let (i3, one) = (U256::from(3), U256::from(1));
	let inp = match n {
		0 => input(Action::BalanceOf, &[z, wn(3)]),
		1 => input(Action::BalanceOfBatch, &arrays(&[], &[i3], &[i3], false)),
		2 => input(Action::IsApprovedForAll, &[z, z]),
		3 => input(Action::TotalSupply, &[wn(3)]),
		4 => input(Action::Exists, &[wn(3)]),
		5 => input(Action::Uri, &[wn(3)]),
		6 => input(Action::Owner, &[]),
		7 => input(Action::SafeTransferFrom, &[wa(&acc(0)), z, wn(3), wn(1), wn(160), wn(0)]),
		8 => input(Action::SafeBatchTransferFrom, &arrays(&[wa(&acc(0)), z], &[i3], &[one], true)),
		9 => input(Action::Burn, &[wa(&acc(0)), wn(3), wn(1)]),
		10 => input(Action::BurnBatch, &arrays(&[wa(&acc(0))], &[i3], &[one], false)),
		11 => input(Action::SetApprovalForAll, &[z, wn(1)]),
		12 => input(Action::Mint, &[z, wn(3), wn(1)]),
		13 => input(Action::MintBatch, &arrays(&[z], &[i3], &[one], false)),
		14 => input(Action::SetMaxSupply, &[wn(3), wu(U256::from(u128::MAX))]),
		15 => input(Action::TransferOwnership, &[z]),
		16 => input(Action::RenounceOwnership, &[]),
		17 => input(Action::TogglePublicMint, &[wn(3), wn(1)]),
		18 => input(Action::SetMintFee, &[wn(3), wa(&T::runtime_id_to_evm_id(5, &[0xCC; 4]).0.into()), wn(3)]),
		19 => input(Action::CreateToken, &[wn(128), wn(1), wn(0), z, wn(1), { let mut w = [0; 32]; w[0] = b'q'; w }]),
		_ => input(Action::SetBaseURI, &[wn(32), wn(1), { let mut w = [0; 32]; w[0] = b'q'; w }]),
	};
	let mut h = Handle::new(code(), acc(if n >= 12 { 5 } else { 0 }).into(), inp);
	h.stat = sx::bool();
	h.context.apparent_value = U256::from(sx::u128());
	let w0 = writes();
	let (b, t) = (bals(), TokenInfo::<T>::get((COL, 3)).unwrap());
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(h.context.apparent_value.is_zero(), "no function of the collection accepts value");
		if h.stat || n <= 6 {
			sx::check(writes() == w0 && h.logs.is_empty(), "a view or a static call writes nothing");
		}
		if h.stat { sx::reach("a static view"); }
		if n > 6 { sx::reach("a call"); }
	} else {
		let short = n >= 7 && n <= 10 && b[0] == 0;
		let full = (n == 12 || n == 13) && t.max_issuance == Some(t.token_issuance);
		sx::check(!h.context.apparent_value.is_zero() || (h.stat && n > 6) || short || full || (n == 14 && t.max_issuance.is_some()), "every function answers");
		sx::reach("refused");
	}
}
/// Any input at all is answered or reverted: nothing panics, and gas is only ever spent.
#[no_mangle]
pub extern "C" fn h_any_input() {
	setup();
	let len = [0, 3, 4, 36, 68][sx::choose(5) as usize];
	let inp = sx::vec(len);
	// uri writes the number in decimal: see h_modifiers
	let uri: u32 = Action::Uri.into();
	sx::assume(len < 4 || inp[..4] != uri.to_be_bytes());
	let mut h = Handle::new(code(), acc(5).into(), inp);
	h.gas = if sx::bool() { u64::MAX } else { sx::u64() };
	let g = h.gas;
	let r = run(&mut h);
	sx::check(h.gas <= g, "gas is only spent");
	if r.is_ok() {
		sx::reach("answered");
	} else {
		sx::reach("reverted");
	}
}
/// Arrays of different lengths, or cut short, are refused.
#[no_mangle]
pub extern "C" fn h_lengths() {
	setup();
	let (na, nb) = (sx::choose(3) as usize, sx::choose(3) as usize);
	let (a, b): (Vec<U256>, Vec<U256>) = ((0..na).map(|k| U256::from(IDS[k])).collect(), (0..nb).map(|_| U256::from(1)).collect());
	let k = sx::choose(4);
	let z = wa(&acc(1));
	let inp = match k {
		0 => input(Action::SafeBatchTransferFrom, &arrays(&[wa(&acc(0)), z], &a, &b, true)),
		1 => input(Action::BurnBatch, &arrays(&[wa(&acc(0))], &a, &b, false)),
		2 => input(Action::MintBatch, &arrays(&[z], &a, &b, false)),
		_ => input(Action::BalanceOfBatch, &arrays(&[], &a, &b, false)),
	};
	let cut = sx::choose(3) as usize * 31;
	let inp = inp[..inp.len() - cut].to_vec();
	let mut h = Handle::new(code(), acc(if k == 2 { 5 } else { 0 }).into(), inp);
	let b0 = bals();
	let r = run(&mut h);
	if r.is_ok() {
		sx::check(na == nb, "arrays of different lengths are refused");
		sx::reach("accepted");
	} else {
		sx::check(bals() == b0 && h.logs.is_empty(), "a refused call changes nothing");
		sx::reach("refused");
	}
}
/// Only addresses of existing collections are collections.
#[no_mangle]
pub extern "C" fn h_address() {
	setup();
	let a = H160(sx::bytes::<20>());
	let is = a.0[..4] == [0xBB; 4] && u32::from_be_bytes([a.0[4], a.0[5], a.0[6], a.0[7]]) == COL;
	let s = Erc1155PrecompileSet::<T>::new();
	match s.is_precompile(a, 0) {
		IsPrecompileResult::Answer { is_precompile, .. } => sx::check(is_precompile == is, "an address is a collection exactly when it encodes an existing one"),
		_ => sx::check(false, "the question is answered"),
	}
	let mut h = Handle::new(a, acc(0).into(), input(Action::Owner, &[]));
	let r = s.execute(&mut h);
	sx::check(r.is_some() == is, "exactly the addresses of existing collections are answered");
	if is { sx::reach("a collection"); }
	if !is { sx::reach("another address"); }
}
