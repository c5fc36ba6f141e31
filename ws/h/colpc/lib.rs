#![allow(non_snake_case, deprecated)]
use frame_support::BoundedVec;
use hrt::abi::{self, num, tuple, wa, wh, wn, wu, P};
use hrt::*;
use hrt::{calls, evm, konst, sys};
use pallet_evm_precompiles_nft::{Action as NAct, NftPrecompile, SELECTOR_LOG_INITIALIZE_COLLECTION};
use pallet_evm_precompiles_sft::{Action as SAct, SftPrecompile, SELECTOR_LOG_INITIALIZE_SFT_COLLECTION};
use pallet_nft::Pallet as Nft;
use pallet_sft::Pallet as Sft;
use precompile_utils::prelude::{Address, ErcIdConversion};
use seed_primitives::*;
use sp_core::{H160, H256, U256};
use sp_runtime::{DispatchError, Permill};
use vstub::evm::*;

calls!(T, RtCall { N: pallet_nft::Call<T>, S: pallet_sft::Call<T> });
sys!(T, RtCall);
evm!(T);
konst! {
	MaxTok: u32 = 1000;
	MintLim: u32 = 3;
	Pid: PalletId = PalletId(*b"nftokens");
	SPid: PalletId = PalletId(*b"sftokens");
	Para: u32 = 100;
	StrLim: u32 = 10;
	MaxOwners: u32 = 4;
}
impl pallet_nft::Config for T {
	type RuntimeEvent = ();
	type RuntimeCall = RtCall;
	type MaxTokensPerCollection = MaxTok;
	type MintLimit = MintLim;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type MultiCurrency = Ledger;
	type PalletId = Pid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type Xls20MintRequest = Rec;
	type NFIRequest = Rec;
}
impl pallet_sft::Config for T {
	type RuntimeEvent = ();
	type MultiCurrency = Ledger;
	type NFTExt = pallet_nft::Pallet<T>;
	type OnTransferSubscription = Rec;
	type OnNewAssetSubscription = Rec;
	type PalletId = SPid;
	type ParachainId = Para;
	type StringLimit = StrLim;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTok;
	type MaxSerialsPerMint = MintLim;
	type MaxOwnersPerSftToken = MaxOwners;
	type NFIRequest = Rec;
}
const META: usize = 200;
const ERC721: [u8; 4] = [0xAA; 4];
const ERC1155: [u8; 4] = [0xBB; 4];
impl ErcIdConversion<u32> for T {
	type EvmId = Address;
	fn evm_id_to_runtime_id(a: Address, p: &[u8; 4]) -> Option<u32> {
		let b = H160::from(a).0;
		if b[..4] == p[..] { Some(u32::from_be_bytes([b[4], b[5], b[6], b[7]])) } else { None }
	}
	fn runtime_id_to_evm_id(id: u32, p: &[u8; 4]) -> Address {
		let mut b = [0; 20];
		b[..4].copy_from_slice(p);
		b[4..8].copy_from_slice(&id.to_be_bytes());
		Address(H160(b))
	}
}
fn bv<X: Clone, N: frame_support::traits::Get<u32>>(v: &[X]) -> BoundedVec<X, N> {
	BoundedVec::try_from(v.to_vec()).ok().unwrap()
}
fn here() -> H160 {
	H160([9; 20])
}
fn run(nft: bool, h: &mut Handle) -> PrecompileResult {
	with_layer(|| if nft { <NftPrecompile<T> as Precompile>::execute(h) } else { <SftPrecompile<T> as Precompile>::execute(h) })
}
fn royalties() -> (P, P, Option<Option<RoyaltiesSchedule<Acc>>>) {
	// numbers of addresses and of shares; more than six are refused
	let (n, m) = match sx::choose(6) { 0 => (0, 0), 1 => (1, 1), 2 => (2, 2), 3 => (1, 0), 4 => (2, 1), _ => (7, 7) };
	let mut aw = vec![];
	let mut sw = vec![];
	let mut v = vec![];
	for k in 0..n {
		let a = if k < 2 { pick_acc(3) } else { acc(3) };
		aw.push(wa(&a));
		v.push((a, Permill::zero()));
	}
	for k in 0..m {
		let (x, s) = if k < 2 { num(32) } else { (U256::zero(), Some(0)) };
		sw.push(wu(x));
		if k < n {
			// what exceeds one million parts is all of it
			v[k].1 = match s { Some(s) if s <= 1_000_000 => Permill::from_parts(s as u32), _ => Permill::one() };
		}
	}
	let r = if n != m || n > 6 { None } else { Some(if n == 0 { None } else { Some(RoyaltiesSchedule { entitlements: bv(&v) }) }) };
	(P::A(aw), P::A(sw), r)
}
fn text(long: usize) -> Vec<u8> {
	match sx::choose(4) {
		0 => vec![],
		1 => vec![sx::u8()],
		2 => b"ab".to_vec(),
		_ => vec![b'x'; long],
	}
}
fn create(nft: bool) {
	let c = pick_acc(2);
	let next = sx::u32();
	pallet_nft::NextCollectionId::<T>::put(next);
	// the owner is whoever is named
	let o = H160(sx::bytes());
	let name = text(11);
	let meta = text(META + 1);
	let (ra, rs, roy) = royalties();
	let (mx, mv) = if nft { num(32) } else { (U256::zero(), Some(0)) };
	let mut ps = vec![P::W(wh(o)), P::B(name.clone())];
	if nft {
		ps.push(P::W(wu(mx)));
	}
	ps.extend_from_slice(&[P::B(meta.clone()), ra, rs]);
	let mut h = Handle::new(here(), c.into(), abi::call(if nft { NAct::InitializeCollection.into() } else { SAct::InitializeCollection.into() }, &ps));
	let f = match (roy, mv) {
		(Some(roy), Some(m)) if name.len() <= 10 && meta.len() <= META => Some(move || {
			let (n, s) = (bv(&name), MetadataScheme(bv(&meta)));
			if nft {
				Nft::<T>::do_create_collection(o.into(), n, 0, if m == 0 { None } else { Some(m as u32) }, None, s, roy, OriginChain::Root, CrossChainCompatibility { xrpl: false })
			} else {
				Sft::<T>::do_create_collection(o.into(), bv(&n), s, roy, OriginChain::Root)
			}
		}),
		_ => None,
	};
	let (r, a) = capture(|| run(nft, &mut h));
	let f = match f {
		None => {
			sx::check(r.is_err() && a.none() && h.logs.is_empty(), "what cannot be represented is refused and changes nothing");
			sx::reach("refused");
			return;
		},
		Some(f) => f,
	};
	let (d, b): (Result<u32, DispatchError>, _) = capture(|| with_layer(f));
	sx::check(r.is_ok() == d.is_ok(), "a collection is created exactly if the pallet creates it");
	sx::check(a.same(&b), "exactly the collection asked for is created");
	match (r, d) {
		(Ok(out), Ok(id)) => {
			let at = wh(T::runtime_id_to_evm_id(id, if nft { &ERC721 } else { &ERC1155 }).into());
			sx::check(out.output == tuple(&[P::W(at), P::W(wn(id as u128))]), "the answer is the address and the id of the collection");
			sx::check(h.logs.len() == 1 && h.logs[0].address == here(), "a creation emits one event");
			let (t, d) = if nft { (vec![H256(SELECTOR_LOG_INITIALIZE_COLLECTION), H256(wh(o))], at.to_vec()) } else { (vec![H256(SELECTOR_LOG_INITIALIZE_SFT_COLLECTION), H256(wh(o)), H256(at)], vec![]) };
			sx::check(h.logs[0].topics == t && h.logs[0].data == d, "the event names the owner and the collection");
			sx::reach("created");
		},
		_ => {
			sx::check(h.logs.is_empty(), "a refused call emits nothing");
			sx::reach("refused by the pallet");
		},
	}
}
#[no_mangle]
pub extern "C" fn h_nft() {
	create(true);
}
#[no_mangle]
pub extern "C" fn h_sft() {
	create(false);
}
/// No static call creates a collection, no value is taken, and no input at all panics.
#[no_mangle]
pub extern "C" fn h_input() {
	let nft = sx::bool();
	pallet_nft::NextCollectionId::<T>::put(1);
	let s: u32 = if nft { NAct::InitializeCollection.into() } else { SAct::InitializeCollection.into() };
	let good = sx::bool();
	let input = if good {
		let mut ps = vec![P::W(wa(&acc(1))), P::B(b"n".to_vec())];
		if nft {
			ps.push(P::W([0; 32]));
		}
		ps.extend_from_slice(&[P::B(b"m".to_vec()), P::A(vec![]), P::A(vec![])]);
		abi::call(s, &ps)
	} else {
		let n = [0, 3, 4, 36, 68, 100][sx::choose(6) as usize];
		let mut v: Vec<u8> = sx::vec(n);
		if n >= 4 {
			v[..4].copy_from_slice(&s.to_be_bytes());
		}
		v
	};
	let mut h = Handle::new(here(), acc(0).into(), input);
	h.stat = good && sx::bool();
	h.context.apparent_value = if good { U256::from(sx::u128()) } else { U256::zero() };
	let (r, a) = capture(|| run(nft, &mut h));
	match r {
		Ok(_) => {
			sx::check(!h.stat && h.context.apparent_value.is_zero(), "neither a static call nor one with value creates a collection");
			sx::reach("created");
		},
		Err(_) => {
			sx::check(a.none() && h.logs.is_empty(), "a reverted call changes nothing");
			sx::reach("refused");
		},
	}
}
