#![allow(non_snake_case, deprecated)]
use frame_support::BoundedVec;
use hrt::abi::{self, num, tuple, wa, wh, wn, wu, P};
use hrt::*;
use hrt::{evm, konst, sys};
use pallet_erc20_peg::types::WithdrawCallOrigin;
use pallet_evm_precompiles_peg::*;
use pallet_nft::{CollectionInfo, CollectionInformation, TokenOwnership};
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_primitives::*;
use sp_core::{H160, H256, U256};
use sp_runtime::traits::AccountIdConversion;
use sp_runtime::DispatchError;
use vstub::evm::*;

sys!(T);
evm!(T);
konst! {
	Pid20: PalletId = PalletId(*b"py/erc20");
	Native: u32 = 1;
	MaxDelays: u32 = 8;
	MaxReady: u32 = 8;
	MaxTok: u32 = 4;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	Para: u32 = 100;
	StrLim: u32 = 60;
	PegId: PalletId = PalletId(*b"py/nftpg");
	Delay: u32 = 5;
	MaxAddr: u32 = 2;
	MaxMint: u32 = 2;
	MaxCols: u32 = 2;
}
impl pallet_erc20_peg::Config for T {
	type PegPalletId = Pid20;
	type EthBridge = Rec;
	type MultiCurrency = Ledger;
	type RuntimeEvent = ();
	type WeightInfo = ();
	type NativeAssetId = Native;
	type StringLimit = StrLim;
	type MaxDelaysPerBlock = MaxDelays;
	type MaxReadyBlocks = MaxReady;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = NoCall<T>;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_nft_peg::Config for T {
	type RuntimeEvent = ();
	type PalletId = PegId;
	type DelayLength = Delay;
	type MaxAddresses = MaxAddr;
	type MaxTokensPerMint = MaxMint;
	type EthBridge = Rec;
	type NftPegWeightInfo = ();
	type MaxCollectionsPerWithdraw = MaxCols;
	type MaxSerialsPerWithdraw = MaxMint;
	type NFTMinter = pallet_nft::Pallet<T>;
}
type Erc20 = pallet_erc20_peg::Pallet<T>;
type NftPeg = pallet_nft_peg::Pallet<T>;
const ERC20: [u8; 4] = [0xCC; 4];
const ERC721: [u8; 4] = [0xAA; 4];
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
const ROOT: u32 = 1;
const TOK: u32 = 2;
const FREE: u32 = 3;
const COL: u32 = (7 << 10) | 100;
const COL2: u32 = (8 << 10) | 100;
fn bv<X: Clone, L: frame_support::traits::Get<u32>>(v: &[X]) -> BoundedVec<X, L> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn here() -> H160 {
	H160([9; 20])
}
/// An address: that of an id under the prefix, or one that is none.
fn addr(p: &[u8; 4], id: u32) -> ([u8; 32], Option<u32>) {
	if sx::bool() {
		(wh(T::runtime_id_to_evm_id(id, p).into()), Some(id))
	} else {
		let b: [u8; 20] = sx::bytes();
		sx::assume(b[..4] != p[..]);
		(wh(H160(b)), None)
	}
}
fn exec(h: &mut Handle) -> PrecompileResult {
	with_layer(|| <PegPrecompile<T> as Precompile>::execute(h))
}
fn twin<R>(h: &mut Handle, f: Option<impl FnOnce() -> Result<R, DispatchError>>) -> Option<(PrecompileOutput, R)> {
	let (r, a) = capture(|| exec(h));
	match f {
		None => {
			sx::check(r.is_err() && a.none(), "what cannot be represented is refused and changes nothing");
			sx::check(h.logs.is_empty(), "a refused call emits nothing");
			None
		},
		Some(f) => {
			let (d, b) = capture(|| with_layer(f));
			sx::check(r.is_ok() == d.is_ok(), "the call succeeds exactly if the same withdrawal of the caller does");
			sx::check(a.same(&b), "the call has exactly the effect of the same withdrawal of the caller");
			match (r, d) {
				(Ok(o), Ok(d)) => Some((o, d)),
				_ => {
					sx::check(h.logs.is_empty(), "a refused call emits nothing");
					None
				},
			}
		},
	}
}
fn world20() {
	for (a, e) in [(ROOT, 0x21), (TOK, 0x22)] {
		pallet_erc20_peg::Erc20ToAssetId::<T>::insert(H160([e; 20]), a);
		pallet_erc20_peg::AssetIdToErc20::<T>::insert(a, H160([e; 20]));
	}
	pallet_erc20_peg::ContractAddress::<T>::put(H160([0x31; 20]));
	pallet_erc20_peg::RootPegContractAddress::<T>::put(H160([0x32; 20]));
	pallet_erc20_peg::WithdrawalsActive::<T>::put(sx::bool());
	pallet_erc20_peg::WithdrawalsDelayActive::<T>::put(sx::bool());
	set_block(5);
	let vault: Acc = Pid20::get().into_account_truncating();
	for a in [ROOT, TOK, FREE] {
		if a != FREE && sx::bool() {
			pallet_erc20_peg::PaymentDelay::<T>::insert(a, (sx::u128(), sx::u32()));
		}
		let mut left = u128::MAX;
		for w in [acc(0), acc(1), vault] {
			let b = sx::u128();
			sx::assume(b <= left);
			left -= b;
			Ledger::set(a, &w, b);
		}
		Ledger::create(a, u128::MAX);
	}
	EthFail::put(sx::bool());
}
#[no_mangle]
pub extern "C" fn h_erc20() {
	world20();
	let c = pick_acc(2);
	let b = H160(sx::bytes());
	let (tw, t) = addr(&ERC20, [ROOT, TOK, FREE][sx::choose(3) as usize]);
	let (x, v) = num(128);
	let mut h = Handle::new(here(), c.into(), abi::call(Action::Erc20Withdraw.into(), &[P::W(wh(b)), P::W(tw), P::W(wu(x))]));
	let f = match (t, v) {
		(Some(t), Some(v)) => Some(move || Erc20::do_withdrawal(c, t, v, b, WithdrawCallOrigin::Evm)),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, id)) => {
			sx::reach("withdrawn");
			sx::check(id.is_some(), "what is withdrawn through the EVM is sent at once");
			let id = id.unwrap() as u128;
			sx::check(o.output == wn(id), "the answer is the id of the message");
			sx::check(h.logs.len() == 1 && h.logs[0].address == here(), "a withdrawal emits one event");
			sx::check(h.logs[0].topics == vec![H256(SELECTOR_LOG_ERC20_WITHDRAWAL), H256(wn(id)), H256(wh(b)), H256(tw)] && h.logs[0].data == wu(x), "the event names message, beneficiary, token and amount");
		},
		None => sx::reach("refused"),
	}
}
fn coll(id: u32, e: u8, origin: OriginChain, held: &[(Acc, Vec<u32>)]) {
	let n: usize = held.iter().map(|h| h.1.len()).sum();
	CollectionInfo::<T>::insert(
		id,
		CollectionInformation::<Acc, MaxTok, StrLim> {
			owner: acc(5),
			name: bv(b"n"),
			metadata_scheme: MetadataScheme(bv(b"m")),
			royalties_schedule: None,
			max_issuance: None,
			origin_chain: origin,
			next_serial_number: 9,
			collection_issuance: n as u32,
			cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
			owned_tokens: bv(&held.iter().map(|(o, s)| TokenOwnership { owner: *o, owned_serials: bv(s) }).collect::<Vec<_>>()),
		},
	);
	pallet_nft_peg::EthToRootNft::<T>::insert(H160([e; 20]), id);
	pallet_nft_peg::RootNftToErc721::<T>::insert(id, H160([e; 20]));
}
fn world721() {
	pallet_nft_peg::ContractAddress::<T>::put(H160([0x33; 20]));
	coll(COL, 0x41, OriginChain::Ethereum, &[(acc(0), vec![1, 2]), (acc(1), vec![3])]);
	coll(COL2, 0x42, if sx::bool() { OriginChain::Ethereum } else { OriginChain::Root }, &[(acc(0), vec![7])]);
	EthFail::put(sx::bool());
}
/// Collections with one list of serial numbers each: any numbers, and any mismatch of the lists.
#[no_mangle]
pub extern "C" fn h_erc721() {
	world721();
	let c = pick_acc(2);
	let b = H160(sx::bytes());
	let shape: &[usize] = match sx::choose(6) { 0 => &[1], 1 => &[2], 2 => &[1, 1], 3 => &[3], 4 => &[], _ => &[1, 1, 1] };
	let n = match sx::choose(2) { 0 => shape.len(), _ => 1 };
	let mut cw = vec![];
	let mut cs = Some(vec![]);
	for k in 0..n {
		let (w, i) = if k == 0 { addr(&ERC721, [COL, COL2, COL + 1][sx::choose(3) as usize]) } else { (wh(T::runtime_id_to_evm_id(COL2, &ERC721).into()), Some(COL2)) };
		cw.push(w);
		match (&mut cs, i) {
			(Some(v), Some(i)) => v.push(i),
			_ => cs = None,
		}
	}
	let mut sw = vec![];
	let mut ss = Some(vec![]);
	for (k, m) in shape.iter().enumerate() {
		let mut ws = vec![];
		let mut xs = vec![];
		for j in 0..*m {
			let (x, v) = if k == 0 { num(32) } else { (U256::from(7 + j as u32), Some(7 + j as u128)) };
			ws.push(wu(x));
			match v {
				Some(v) => xs.push(v as u32),
				None => ss = None,
			}
		}
		sw.push(ws);
		if let Some(v) = &mut ss {
			v.push(xs);
		}
	}
	let fits = n <= 2 && shape.len() <= 2 && shape.iter().all(|m| *m <= 2);
	let mut h = Handle::new(here(), c.into(), abi::call(Action::Erc721Withdraw.into(), &[P::W(wh(b)), P::A(cw.clone()), P::AA(sw.clone())]));
	let f = match (cs, ss) {
		(Some(cs), Some(ss)) if fits => Some(move || NftPeg::do_withdrawal(c, bv(&cs), bv(&ss.iter().map(|s| bv(s)).collect::<Vec<_>>()), b, None)),
		_ => None,
	};
	match twin(&mut h, f) {
		Some((o, id)) => {
			sx::check(o.output == wn(id as u128), "the answer is the id of the message");
			sx::check(h.logs.len() == n, "every collection withdrawn from emits an event");
			for k in 0..n {
				let l = &h.logs[k];
				sx::check(l.address == here() && l.topics == vec![H256(SELECTOR_LOG_ERC721_WITHDRAWAL), H256(wn(id as u128)), H256(wh(b)), H256(cw[k])] && l.data == tuple(&[P::A(sw[k].clone())]), "the event names message, beneficiary, collection and tokens");
			}
			if n == 2 {
				sx::reach("two collections");
			}
			sx::reach("withdrawn");
		},
		None => sx::reach("refused"),
	}
}
/// No static call withdraws, no value is taken, and no input at all panics.
#[no_mangle]
pub extern "C" fn h_input() {
	let n = sx::choose(4);
	let nft = sx::bool();
	if nft {
		world721();
	} else {
		world20();
	}
	EthFail::put(false);
	let s: u32 = if nft { Action::Erc721Withdraw.into() } else { Action::Erc20Withdraw.into() };
	let good = n == 0;
	let input = if good {
		if nft {
			abi::call(s, &[P::W(wa(&acc(1))), P::A(vec![wh(T::runtime_id_to_evm_id(COL, &ERC721).into())]), P::AA(vec![vec![wn(1)]])])
		} else {
			abi::call(s, &[P::W(wa(&acc(1))), P::W(wh(T::runtime_id_to_evm_id(ROOT, &ERC20).into())), P::W(wn(1))])
		}
	} else {
		let n = [3, 4, 100][n as usize - 1];
		let mut v: Vec<u8> = sx::vec(n);
		if n >= 4 {
			v[..4].copy_from_slice(&s.to_be_bytes());
		}
		v
	};
	let mut h = Handle::new(here(), acc(0).into(), input);
	h.stat = good && sx::bool();
	h.context.apparent_value = if good { U256::from(sx::u128()) } else { U256::zero() };
	let (r, a) = capture(|| exec(&mut h));
	match r {
		Ok(_) => {
			sx::check(!h.stat && h.context.apparent_value.is_zero(), "neither a static call nor one with value withdraws");
			sx::reach("withdrawn");
		},
		Err(_) => {
			sx::check(a.none() && h.logs.is_empty(), "a reverted call changes nothing");
			sx::reach("refused");
		},
	}
}
