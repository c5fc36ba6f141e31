#![allow(non_snake_case)]
use frame_support::traits::{Get, Hooks};
use frame_support::weights::Weight;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, prefix, signed, sys};
use pallet_xrpl_bridge::types::*;
use pallet_xrpl_bridge::*;
use seed_pallet_common::{utils::PublicMintInformation, *};
use seed_primitives::{ethy::crypto::AuthorityId, xrpl::*, *};
use sp_core::{H160, H512};
use sp_runtime::traits::AccountIdConversion;
use sp_runtime::{DispatchError, DispatchResult, Percent};
use vstub::system::RawOrigin;

sys!(T);
prefix!(PSent);
prefix!(PSignFail);
prefix!(PXls);
prefix!(PXlsId);
prefix!(PXlsFail);
prefix!(PCompat);
prefix!(PBurnt);
type Sent = StorageValue<PSent, Vec<Vec<u8>>, ValueQuery>;
type SignFail = StorageValue<PSignFail, bool, ValueQuery>;
type XlsIn = StorageValue<PXls, Vec<(Acc, [u8; 32])>, ValueQuery>;
type XlsId = StorageMap<PXlsId, (), TokenId, [u8; 32], OptionQuery>;
type XlsFail = StorageValue<PXlsFail, bool, ValueQuery>;
type Compat = StorageMap<PCompat, (), u32, bool, OptionQuery>;
type Burnt = StorageValue<PBurnt, Vec<(Acc, u32, u32)>, ValueQuery>;
pub struct Ethy;
impl XrplBridgeToEthyAdapter<AuthorityId> for Ethy {
	fn sign_xrpl_transaction(d: &[u8]) -> Result<u64, DispatchError> {
		if SignFail::get() {
			return Err(DispatchError::Other("ethy"));
		}
		Sent::mutate(|v| v.push(d.to_vec()));
		Ok(Sent::get().len() as u64)
	}
	fn validators() -> Vec<AuthorityId> {
		vec![]
	}
	fn xrp_validators() -> Vec<AuthorityId> {
		vec![]
	}
}
pub struct Xls;
impl Xls20Ext for Xls {
	type AccountId = Acc;
	fn deposit_xls20_token(r: &Acc, t: [u8; 32]) -> WeightedDispatchResult {
		if XlsFail::get() {
			return Err((Weight::zero(), DispatchError::Other("xls20")));
		}
		XlsIn::mutate(|v| v.push((*r, t)));
		Ok(Weight::zero())
	}
	fn get_xls20_token_id(t: TokenId) -> Option<[u8; 32]> {
		XlsId::get(t)
	}
}
pub struct Nfts;
impl NFTExt for Nfts {
	type AccountId = Acc;
	type StringLimit = SLimit;
	fn do_mint(_o: Acc, _c: u32, _q: u32, _to: Option<Acc>) -> DispatchResult {
		unimplemented!()
	}
	fn do_transfer(_o: &Acc, _c: u32, _s: Vec<u32>, _n: &Acc) -> DispatchResult {
		unimplemented!()
	}
	fn do_burn(w: Acc, c: u32, s: u32) -> DispatchResult {
		if w != acc(0) {
			return Err(DispatchError::Other("not the owner"));
		}
		Burnt::mutate(|v| v.push((w, c, s)));
		Ok(())
	}
	fn do_create_collection(_o: Acc, _n: BoundedVec<u8, SLimit>, _i: u32, _m: Option<u32>, _t: Option<Acc>, _s: MetadataScheme, _r: Option<RoyaltiesSchedule<Acc>>, _oc: OriginChain, _cc: CrossChainCompatibility) -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn get_token_owner(_t: &TokenId) -> Option<Acc> {
		None
	}
	fn get_collection_issuance(_c: u32) -> Result<(u32, Option<u32>), DispatchError> {
		unimplemented!()
	}
	fn get_public_mint_info(_c: u32) -> Result<PublicMintInformation, DispatchError> {
		unimplemented!()
	}
	fn transfer_collection_ownership(_w: Acc, _c: u32, _n: Acc) -> DispatchResult {
		unimplemented!()
	}
	fn get_royalties_schedule(_c: u32) -> Result<Option<RoyaltiesSchedule<Acc>>, DispatchError> {
		Ok(None)
	}
	fn enable_xls20_compatibility(_w: Acc, _c: u32) -> DispatchResult {
		unimplemented!()
	}
	fn next_collection_uuid() -> Result<u32, DispatchError> {
		unimplemented!()
	}
	fn increment_collection_uuid() -> DispatchResult {
		unimplemented!()
	}
	fn get_token_lock(_t: TokenId) -> Option<TokenLockReason> {
		None
	}
	fn set_token_lock(_t: TokenId, _l: TokenLockReason, _w: Acc) -> DispatchResult {
		unimplemented!()
	}
	fn remove_token_lock(_t: TokenId) {}
	fn get_collection_owner(_c: u32) -> Result<Acc, DispatchError> {
		unimplemented!()
	}
	fn get_cross_chain_compatibility(c: u32) -> Result<CrossChainCompatibility, DispatchError> {
		Compat::get(c).map(|xrpl| CrossChainCompatibility { xrpl }).ok_or(DispatchError::Other("no collection"))
	}
}
pub struct Clock;
impl frame_support::traits::UnixTime for Clock {
	fn now() -> core::time::Duration {
		core::time::Duration::from_secs(0)
	}
}
const ROOT: u32 = 1;
const XRP: u32 = 2;
const TOK: u32 = 3;
konst! {
	SLimit: u32 = 50;
	Pid: PalletId = PalletId(*b"xrpl/bri");
	XrpId: u32 = XRP;
	RootId: u32 = ROOT;
	Challenge: u32 = 100;
	MaxPrune: u32 = 3;
	MaxDelayed: u32 = 2;
	BlockLimit: u32 = 2;
	Threshold: Percent = Percent::from_percent(66);
	TxLimit: u32 = 2;
	LedgerLimit: u32 = 4;
}
impl Config for T {
	type RuntimeEvent = ();
	type EthyAdapter = Ethy;
	type MultiCurrency = Ledger;
	type ApproveOrigin = frame_system::EnsureRoot<Acc>;
	type WeightInfo = ();
	type XrpAssetId = XrpId;
	type NativeAssetId = RootId;
	type PalletId = Pid;
	type ChallengePeriod = Challenge;
	type MaxPrunedTransactionsPerBlock = MaxPrune;
	type MaxDelayedPaymentsPerBlock = MaxDelayed;
	type DelayedPaymentBlockLimit = BlockLimit;
	type UnixTime = Clock;
	type TicketSequenceThreshold = Threshold;
	type XRPTransactionLimit = TxLimit;
	type XRPLTransactionLimitPerLedger = LedgerLimit;
	type NFTExt = Nfts;
	type Xls20Ext = Xls;
}
fn pallet() -> Acc {
	Pid::get().into_account_truncating()
}
/// The n-th transaction hash.
fn hx(n: u8) -> H512 {
	H512([n; 64])
}
fn cur(n: u8) -> XRPLCurrency {
	XRPLCurrency { symbol: XRPLCurrencyType::NonStandard([n; 20]), issuer: H160([n + 1; 20]) }
}
/// An arbitrary relayed transaction paying accounts 1 or 2.
fn data() -> XrplTxData {
	let address = H160::from(acc(1 + sx::choose(2) as u8));
	match sx::choose(3) {
		0 => XrplTxData::Payment { amount: sx::u128(), address },
		1 => XrplTxData::CurrencyPayment { amount: sx::u128(), address, currency: cur(1 + sx::choose(3) as u8) },
		_ => XrplTxData::Xls20 { token_id: sx::bytes(), address },
	}
}
/// Currency 1 is TOK, 2 is ROOT, 3 is unknown.
fn currencies() {
	for (n, a) in [(1u8, TOK), (2, ROOT)] {
		XRPLToAssetId::<T>::insert(cur(n), a);
		AssetIdToXRPL::<T>::insert(a, cur(n));
	}
}
fn asset_of(d: &XrplTxData) -> Option<u32> {
	match d {
		XrplTxData::Payment { .. } => Some(XRP),
		XrplTxData::CurrencyPayment { currency, .. } if *currency == cur(1) => Some(TOK),
		XrplTxData::CurrencyPayment { currency, .. } if *currency == cur(2) => Some(ROOT),
		_ => None,
	}
}
fn origin(root: bool, who: Acc) -> vstub::system::Origin<Acc, NoCall<T>> {
	if root {
		RawOrigin::Root.into()
	} else {
		signed!(who)
	}
}
// ---------------------------------------------------------------- deposits
/// Relaying a transaction.
#[no_mangle]
pub extern "C" fn h_submit() {
	currencies();
	let now = sx::u32();
	sx::assume(now < u32::MAX - 100);
	set_block(now);
	let (high, width) = (sx::u32(), sx::u32());
	HighestSettledLedgerIndex::<T>::put(high);
	SubmissionWindowWidth::<T>::put(width);
	let rel = sx::choose(3);
	if rel > 0 {
		Relayer::<T>::insert(acc(0), rel == 1);
	}
	Relayer::<T>::insert(acc(3), true);
	let h = hx(1 + sx::choose(2) as u8);
	let known = sx::bool();
	let (l1, x1) = (sx::u32() as u64, XrpTransaction { transaction_hash: hx(1), transaction: data(), timestamp: 0 });
	if known {
		ProcessXRPTransactionDetails::<T>::insert(hx(1), (l1, x1.clone(), acc(3)));
	}
	let n = sx::choose(3) as usize;
	let queued: Vec<H512> = [hx(1), hx(3)][..n].to_vec();
	if n > 0 {
		ProcessXRPTransaction::<T>::insert(now + 100, BoundedVec::try_from(queued.clone()).ok().unwrap());
	}
	let l = sx::u32() as u64;
	let t = data();
	let stamp = sx::u64();
	let who = acc(sx::choose(2) as u8 * 3);
	let r = with_layer(|| Pallet::<T>::submit_transaction(signed!(who), l, h, t.clone(), stamp));
	let relayer = who == acc(3) || rel == 1;
	let in_window = l >= high.saturating_sub(width) as u64;
	let supported = asset_of(&t).is_some() || matches!(t, XrplTxData::Xls20 { .. });
	if r.is_ok() {
		sx::reach("accepted");
		sx::check(relayer, "only an active relayer relays");
		sx::check(in_window, "a ledger before the window is refused");
		sx::check(!(known && h == hx(1)), "a transaction is relayed once");
		sx::check(supported, "an unknown currency is refused");
		let d = ProcessXRPTransactionDetails::<T>::get(h);
		sx::check(d == Some((l, XrpTransaction { transaction_hash: h, transaction: t, timestamp: stamp }, who)), "the transaction is recorded as relayed");
		let mut q = queued;
		q.push(h);
		sx::check(ProcessXRPTransaction::<T>::get(now + 100).map(|v| v.into_inner()) == Some(q), "it is due once, when its challenge period is over");
	} else {
		sx::reach("refused");
		sx::check(!relayer || !in_window || (known && h == hx(1)) || !supported || n == 2, "an active relayer can relay");
		sx::check(ProcessXRPTransaction::<T>::get(now + 100).map_or(0, |v| v.len()) == n, "a refusal changes nothing");
		sx::check(ProcessXRPTransactionDetails::<T>::contains_key(h) == (known && h == hx(1)), "a refusal changes nothing");
	}
	if known {
		sx::check(ProcessXRPTransactionDetails::<T>::get(hx(1)) == Some((l1, x1, acc(3))), "other transactions are untouched");
	}
	sx::check(writes_at_other(now), "nothing else becomes due");
}
fn writes_at_other(now: u32) -> bool {
	let b = sx::u32();
	b == now + 100 || !ProcessXRPTransaction::<T>::contains_key(b)
}
fn balances() {
	for a in [ROOT, XRP, TOK] {
		let mut s = 0u128;
		for w in [acc(1), acc(2), pallet()] {
			let b = sx::u128();
			sx::assume(b < 1 << 126);
			Ledger::set(a, &w, b);
			s += b;
		}
		let rest = sx::u128();
		sx::assume(rest <= u128::MAX - s);
		Ledger::create(a, s + rest);
	}
}
type Snap = Vec<(u32, Vec<u128>, u128)>;
fn snap() -> Snap {
	[ROOT, XRP, TOK].iter().map(|a| (*a, [acc(1), acc(2), pallet()].iter().map(|w| Ledger::bal(*a, w)).collect(), Ledger::supply(*a))).collect()
}
/// One due transaction.
#[no_mangle]
pub extern "C" fn h_process_1() {
	currencies();
	balances();
	XlsFail::put(sx::bool());
	let n = sx::u32();
	let (l, t) = (sx::u32(), data());
	let challenged = sx::bool();
	let has = sx::bool();
	let x = XrpTransaction { transaction_hash: hx(1), transaction: t.clone(), timestamp: 0 };
	if has {
		ProcessXRPTransactionDetails::<T>::insert(hx(1), (l as u64, x.clone(), acc(3)));
	}
	if challenged {
		ChallengeXRPTransactionList::<T>::insert(hx(1), acc(4));
	}
	ProcessXRPTransaction::<T>::insert(n, BoundedVec::try_from(vec![hx(1)]).ok().unwrap());
	let other = sx::u32();
	if other != n {
		ProcessXRPTransaction::<T>::insert(other, BoundedVec::try_from(vec![hx(2)]).ok().unwrap());
		ProcessXRPTransactionDetails::<T>::insert(hx(2), (l as u64, XrpTransaction { transaction_hash: hx(2), transaction: t.clone(), timestamp: 0 }, acc(3)));
	}
	let full = sx::bool();
	if full {
		SettledXRPTransactionDetails::<T>::insert(l, BoundedVec::try_from(vec![hx(7)]).ok().unwrap());
	}
	let high = sx::u32();
	HighestSettledLedgerIndex::<T>::put(high);
	let s = snap();
	Pallet::<T>::on_initialize(n);
	let e = snap();
	let run = has && !challenged;
	let (to, amount) = match &t {
		XrplTxData::Payment { amount, address } | XrplTxData::CurrencyPayment { amount, address, .. } => (Acc::from(*address), *amount),
		XrplTxData::Xls20 { address, .. } => (Acc::from(*address), 0),
	};
	let i = if to == acc(1) { 0 } else { 1 };
	let settled: Vec<H512> = SettledXRPTransactionDetails::<T>::get(l).map(|v| v.into_inner()).unwrap_or_default();
	let done = settled.contains(&hx(1));
	sx::check(ChallengeXRPTransactionList::<T>::contains_key(hx(1)) == challenged, "challenges stay");
	let mut x = s.clone();
	if done {
		sx::reach("paid");
		sx::check(run, "a challenged or unknown transaction is not processed");
		match asset_of(&t) {
			Some(a) => {
				let k = (a - 1) as usize;
				if a == ROOT {
					x[k].1[2] = x[k].1[2].wrapping_sub(amount);
				} else {
					x[k].2 = x[k].2.wrapping_add(amount);
				}
				x[k].1[i] = x[k].1[i].wrapping_add(amount);
				sx::check(e[k].2 >= e[k].1[i] && XlsIn::get().is_empty(), "the receiver gets exactly the deposit");
			},
			None => match &t {
				XrplTxData::Xls20 { token_id, .. } => sx::check(XlsIn::get() == vec![(to, *token_id)], "the token goes to its receiver"),
				_ => sx::check(false, "an unknown currency pays nothing"),
			},
		}
		sx::check(settled.len() == 1 + full as usize, "it is settled once, under its ledger");
		sx::check(HighestSettledLedgerIndex::<T>::get() == high.max(l), "the highest settled ledger is known");
	} else {
		sx::reach("not paid");
		sx::check(XlsIn::get().is_empty(), "nothing is paid");
		sx::check(HighestSettledLedgerIndex::<T>::get() == high, "nothing is settled");
		let fails = match asset_of(&t) {
			Some(ROOT) => s[0].1[2] < amount,
			Some(a) => s[(a - 1) as usize].2.checked_add(amount).is_none(),
			None => XlsFail::get() || !matches!(t, XrplTxData::Xls20 { .. }),
		};
		sx::check(!run || fails, "an unchallenged deposit is paid");
	}
	sx::check(e == x, "exactly the deposit is paid, to its receiver");
	sx::check(!ProcessXRPTransaction::<T>::contains_key(n), "it is not due again");
	sx::check(!has || ProcessXRPTransactionDetails::<T>::contains_key(hx(1)), "it cannot be relayed again");
	if other != n {
		sx::check(ProcessXRPTransaction::<T>::contains_key(other), "other blocks keep theirs");
	}
	// a second round pays nothing more
	Pallet::<T>::on_initialize(n);
	sx::check(snap() == x && XlsIn::get().len() <= 1, "a deposit is paid once");
}
/// Two due transactions: each is paid whatever happens to the other.
#[no_mangle]
pub extern "C" fn h_process_2() {
	currencies();
	for a in [ROOT, XRP, TOK] {
		Ledger::create(a, 1 << 100);
	}
	Ledger::set(ROOT, &pallet(), 1 << 90);
	let n = sx::u32();
	let mut due = vec![];
	let mut ok = vec![];
	let same = sx::bool();
	let l0 = sx::u32();
	for i in 1..3u8 {
		let l = if same { l0 } else { sx::u32() };
		let amount = sx::u128();
		sx::assume(amount < 1 << 80);
		let address = H160::from(acc(i));
		let transaction = match sx::choose(3) {
			0 => XrplTxData::Payment { amount, address },
			k => XrplTxData::CurrencyPayment { amount, address, currency: cur(1 + 2 * (k as u8 - 1)) },
		};
		let c = sx::bool();
		if c {
			ChallengeXRPTransactionList::<T>::insert(hx(i), acc(4));
		}
		let a = asset_of(&transaction);
		ok.push((l, !c && a.is_some(), a.unwrap_or(XRP), amount));
		ProcessXRPTransactionDetails::<T>::insert(hx(i), (l as u64, XrpTransaction { transaction_hash: hx(i), transaction, timestamp: 0 }, acc(3)));
		due.push(hx(i));
	}
	ProcessXRPTransaction::<T>::insert(n, BoundedVec::try_from(due).ok().unwrap());
	let high = sx::u32();
	HighestSettledLedgerIndex::<T>::put(high);
	Pallet::<T>::process_xrp_tx(n);
	sx::reach("processed");
	let mut m = high;
	for (i, (l, o, a, x)) in ok.iter().enumerate() {
		let who = acc(1 + i as u8);
		for b in [ROOT, XRP, TOK] {
			sx::check(Ledger::bal(b, &who) == if *o && b == *a { *x } else { 0 }, "each unchallenged deposit is paid in full to its receiver");
		}
		sx::check(SettledXRPTransactionDetails::<T>::get(l).unwrap_or_default().iter().filter(|h| **h == hx(1 + i as u8)).count() == *o as usize, "each is settled under its ledger");
		if *o {
			m = m.max(*l);
		}
	}
	sx::check(HighestSettledLedgerIndex::<T>::get() == m, "the highest settled ledger is known");
}
/// Anybody can challenge; nothing else comes of it.
#[no_mangle]
pub extern "C" fn h_challenge() {
	let old = sx::bool();
	if old {
		ChallengeXRPTransactionList::<T>::insert(hx(2), acc(5));
	}
	let h = hx(1 + sx::choose(2) as u8);
	let r = with_layer(|| Pallet::<T>::submit_challenge(signed!(any_acc()), h));
	sx::reach("done");
	sx::check(r.is_ok() && ChallengeXRPTransactionList::<T>::contains_key(h), "anybody can challenge");
	sx::check(!old || ChallengeXRPTransactionList::<T>::contains_key(hx(2)), "challenges stay");
	sx::check(ChallengeXRPTransactionList::<T>::contains_key(hx(1)) == (h == hx(1)), "only the named transaction is challenged");
}
fn settled(l: u32) -> Vec<H512> {
	SettledXRPTransactionDetails::<T>::get(l).map(|v| v.into_inner()).unwrap_or_default()
}
/// Settled ledgers base, base+1, base+2 with up to two transactions each.
fn ledgers(base: u32) -> Vec<(u32, H512)> {
	let mut v = vec![];
	for i in 0..3u32 {
		let k = sx::choose(3) as usize;
		let hs: Vec<H512> = [hx(10 + 2 * i as u8), hx(11 + 2 * i as u8)][..k].to_vec();
		for h in &hs {
			ProcessXRPTransactionDetails::<T>::insert(h, ((base + i) as u64, XrpTransaction { transaction_hash: *h, transaction: XrplTxData::default(), timestamp: 0 }, acc(3)));
			v.push((base + i, *h));
		}
		if k > 0 {
			SettledXRPTransactionDetails::<T>::insert(base + i, BoundedVec::try_from(hs).ok().unwrap());
		}
	}
	v
}
/// A transaction that was forgotten cannot be relayed for its ledger again.
fn no_replay(v: &[(u32, H512)]) {
	for (l, h) in v {
		if !ProcessXRPTransactionDetails::<T>::contains_key(h) {
			sx::reach("forgotten");
			let r = with_layer(|| Pallet::<T>::submit_transaction(signed!(acc(3)), *l as u64, *h, XrplTxData::default(), 0));
			sx::check(r.is_err(), "a settled transaction cannot be relayed again");
		} else {
			sx::check(settled(*l).contains(h), "a remembered transaction is still due for pruning");
		}
	}
}
#[no_mangle]
pub extern "C" fn h_prune() {
	Relayer::<T>::insert(acc(3), true);
	let base = sx::u32();
	sx::assume(base < u32::MAX - 100);
	let v = ledgers(base);
	let width = sx::u32();
	let high = sx::u32();
	HighestPrunedLedgerIndex::<T>::put(base);
	HighestSettledLedgerIndex::<T>::put(high);
	SubmissionWindowWidth::<T>::put(width);
	let end = high.saturating_sub(width);
	let w = sx::u64();
	Pallet::<T>::clear_storages(Weight::from_parts(w, 0));
	sx::reach("done");
	let p = HighestPrunedLedgerIndex::<T>::get();
	sx::check(p == base || (p > base && p <= end), "pruning stops at the window");
	for i in 0..3 {
		let l = base + i;
		sx::check(l >= p || settled(l).is_empty(), "what is pruned is gone");
		sx::check(l < end || settled(l).len() == v.iter().filter(|x| x.0 == l).count(), "ledgers within the window are kept");
	}
	no_replay(&v);
	sx::check(w < 10_000_000_000 || p == base.max(end.min(base + 3)), "with enough weight pruning makes progress");
}
#[no_mangle]
pub extern "C" fn h_prune_manual() {
	Relayer::<T>::insert(acc(3), true);
	let base = sx::u32();
	sx::assume(base < u32::MAX - 100);
	let v = ledgers(base);
	let (width, high) = (sx::u32(), sx::u32());
	HighestSettledLedgerIndex::<T>::put(high);
	SubmissionWindowWidth::<T>::put(width);
	let l = base + sx::choose(3) as u32;
	let root = sx::bool();
	let some = !settled(l).is_empty();
	let r = with_layer(|| Pallet::<T>::prune_settled_ledger_index(origin(root, acc(3)), l));
	if r.is_ok() {
		sx::reach("forgotten");
		sx::check(root && l < high.saturating_sub(width), "only governance prunes, and only before the window");
		for (m, h) in &v {
			sx::check(ProcessXRPTransactionDetails::<T>::contains_key(h) == (*m != l), "exactly that ledger is pruned");
		}
	} else {
		sx::reach("refused");
		sx::check(!root || !some || l >= high.saturating_sub(width), "governance can prune");
		sx::check(v.iter().all(|(_, h)| ProcessXRPTransactionDetails::<T>::contains_key(h)), "a refusal changes nothing");
	}
	no_replay(&v);
}
/// Who may change what.
#[no_mangle]
pub extern "C" fn h_admin() {
	currencies();
	let root = sx::bool();
	let o = || origin(root, acc(3));
	Relayer::<T>::insert(acc(3), true);
	let d = if sx::bool() { XRPLDoorAccount::Main } else { XRPLDoorAccount::NFT };
	let other = if d == XRPLDoorAccount::Main { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
	DoorAddress::<T>::insert(other, H160([9; 20]));
	DoorTxFee::<T>::insert(other, 7);
	let (x, y, z) = (sx::u64(), sx::u32(), sx::u32());
	let (amount, delay) = (sx::u128(), sx::u32());
	let addr = if sx::bool() { Some(H160(sx::bytes())) } else { None };
	let a = acc(3 + sx::choose(2) as u8);
	let known = a == acc(3);
	let what = sx::choose(8);
	let hp = sx::u32();
	let hashes = sx::bool();
	let tx = XrpTransaction { transaction_hash: hx(1), transaction: XrplTxData::default(), timestamp: 0 };
	let r = with_layer(|| match what {
		0 => Pallet::<T>::add_relayer(o(), a),
		1 => Pallet::<T>::remove_relayer(o(), a),
		2 => Pallet::<T>::set_door_tx_fee(o(), d, x),
		3 => Pallet::<T>::set_xrp_source_tag(o(), y),
		4 => Pallet::<T>::set_door_address(o(), d, addr),
		5 => Pallet::<T>::set_payment_delay(o(), TOK, Some((amount, delay))),
		6 => Pallet::<T>::set_payment_delay(o(), TOK, None),
		_ => Pallet::<T>::reset_settled_xrpl_tx_data(o(), y, z, Some(hp), if hashes { Some(vec![(hx(1), y, tx.clone(), acc(3))]) } else { None }),
	});
	if r.is_ok() {
		sx::reach("set");
		sx::check(root, "only governance configures the bridge");
		match what {
			0 => sx::check(Relayer::<T>::get(a) == Some(true), "a relayer is added"),
			1 => sx::check(known && Relayer::<T>::get(a).is_none(), "a relayer is removed"),
			2 => sx::check(DoorTxFee::<T>::get(d) == x, "the fee is set"),
			3 => sx::check(SourceTag::<T>::get() == y, "the tag is set"),
			4 => sx::check(DoorAddress::<T>::get(d) == addr, "the door is set"),
			5 => sx::check(PaymentDelay::<T>::get(TOK) == Some((amount, delay)), "the delay is set"),
			6 => sx::check(PaymentDelay::<T>::get(TOK).is_none(), "the delay is removed"),
			_ => {
				sx::check(hp <= y.saturating_sub(z), "what is within the window is not pruned");
				sx::check(HighestSettledLedgerIndex::<T>::get() == y && SubmissionWindowWidth::<T>::get() == z && HighestPrunedLedgerIndex::<T>::get() == hp, "the window is set");
				sx::check(!hashes || (settled(y) == vec![hx(1)] && ProcessXRPTransactionDetails::<T>::get(hx(1)) == Some((y as u64, tx, acc(3)))), "settled transactions are known");
			},
		}
	} else {
		sx::reach("refused");
		sx::check(!root || (what == 1 && !known) || (what == 7 && hp > y.saturating_sub(z)), "governance configures the bridge");
	}
	sx::check(what == 1 || Relayer::<T>::get(acc(3)) == Some(true), "other relayers stay");
	sx::check((what == 0 && root) || Relayer::<T>::get(acc(4)).is_none(), "nobody becomes a relayer otherwise");
	sx::check(DoorAddress::<T>::get(other) == Some(H160([9; 20])) && DoorTxFee::<T>::get(other) == 7, "the other door is untouched");
	sx::check(PaymentDelay::<T>::get(XRP).is_none(), "other assets are untouched");
}
/// The map between assets and XRPL currencies is one to one.
#[no_mangle]
pub extern "C" fn h_map() {
	// any one to one map between assets 3, 4, 5 and currencies 1, 2, 3
	for (a, c) in [(3u32, 1u8), (4, 2)] {
		if sx::bool() {
			AssetIdToXRPL::<T>::insert(a, cur(c));
			XRPLToAssetId::<T>::insert(cur(c), a);
		}
	}
	let a = 3 + sx::choose(3) as u32;
	let c = if sx::bool() { Some(cur(1 + sx::choose(3) as u8)) } else { None };
	let root = sx::bool();
	let had = AssetIdToXRPL::<T>::get(a);
	let before: Vec<_> = (3..6u32).map(|b| AssetIdToXRPL::<T>::get(b)).collect();
	let r = with_layer(|| Pallet::<T>::set_xrpl_asset_map(origin(root, acc(3)), a, c));
	if r.is_ok() {
		sx::reach("set");
		sx::check(root, "only governance maps assets");
		sx::check(AssetIdToXRPL::<T>::get(a) == c, "the asset is mapped");
	} else {
		sx::reach("refused");
		sx::check(!root || (c.is_none() && had.is_none()), "governance maps assets");
	}
	for b in 3..6u32 {
		let m = AssetIdToXRPL::<T>::get(b);
		sx::check(m.map_or(true, |c| XRPLToAssetId::<T>::get(c) == Some(b)), "an asset's currency is that asset");
		sx::check((b == a && r.is_ok()) || m == before[b as usize - 3] || (r.is_ok() && m.is_none() && before[b as usize - 3] == c), "other assets keep theirs");
	}
	for n in 1..4u8 {
		sx::check(XRPLToAssetId::<T>::get(cur(n)).map_or(true, |b| AssetIdToXRPL::<T>::get(b) == Some(cur(n))), "a currency's asset has that currency");
	}
}
/// A currency XRPL does not know is not mapped.
#[no_mangle]
pub extern "C" fn h_map_invalid() {
	let symbol = if sx::bool() { XRPLCurrencyType::Standard(sx::bytes()) } else { XRPLCurrencyType::NonStandard(sx::bytes()) };
	let r = Pallet::<T>::set_xrpl_asset_map(origin(true, acc(3)), TOK, Some(XRPLCurrency { symbol, issuer: H160(sx::bytes()) }));
	let valid = xrpl_codec::types::CurrencyCodeType::from(symbol).is_valid();
	if r.is_ok() {
		sx::reach("set");
	} else {
		sx::reach("refused");
	}
	sx::check(r.is_ok() == valid, "exactly valid currencies are mapped");
}
// ---------------------------------------------------------------- withdrawals
fn door() {
	DoorTxFee::<T>::insert(XRPLDoorAccount::Main, sx::u64());
	DoorTxFee::<T>::insert(XRPLDoorAccount::NFT, sx::u64());
	SourceTag::<T>::put(sx::u32());
}
fn fee(d: XRPLDoorAccount) -> u64 {
	DoorTxFee::<T>::get(d)
}
const MAIN: [u8; 20] = [0xd0; 20];
const NFT: [u8; 20] = [0xd1; 20];
/// Tickets of both doors: some ticket of the current bucket, possibly used up.
fn tickets() -> (u32, bool) {
	let (c, s, b) = (sx::u32(), sx::u32(), sx::u32());
	sx::assume(s < 1 << 30 && b < 1 << 30 && c >= s && c <= s + b && b > 0);
	for d in XRPLDoorAccount::VALUES {
		DoorTicketSequence::<T>::insert(d, c);
		DoorTicketSequenceParams::<T>::insert(d, XrplTicketSequenceParams { start_sequence: s, bucket_size: b });
	}
	(c, c < s + b)
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
	p.concat()
}
fn tail(ticket: u32, fee: u64) -> Vec<u8> {
	cat(&[&0u32.to_be_bytes(), &ticket.to_be_bytes(), &fee.to_be_bytes(), &SourceTag::<T>::get().to_be_bytes()])
}
/// The payment of `amount` drops to `to`.
fn pay(to: &H160, amount: u64, ticket: u32, fee: u64, tag: Option<u32>) -> Vec<u8> {
	let mut v = cat(&[&[if tag.is_some() { 2 } else { 1 }, 1, 0], &MAIN, &to.0, &amount.to_be_bytes(), &tail(ticket, fee)]);
	if let Some(t) = tag {
		v.extend_from_slice(&t.to_be_bytes());
	}
	v
}
fn xrp(with: u64) {
	Ledger::create(XRP, 0);
	let (b, rest) = (sx::u128(), sx::u128());
	sx::assume(rest <= u128::MAX - b);
	Ledger::set(XRP, &acc(0), b);
	Ledger::create(XRP, b + rest);
	let _ = with;
}
/// Withdrawing XRP.
#[no_mangle]
pub extern "C" fn h_withdraw_xrp() {
	door();
	let (c, left) = tickets();
	let open = sx::bool();
	if open {
		DoorAddress::<T>::insert(XRPLDoorAccount::Main, H160(MAIN));
	}
	SignFail::put(sx::bool());
	xrp(0);
	let (b, s) = (Ledger::bal(XRP, &acc(0)), Ledger::supply(XRP));
	let amount = sx::u128();
	let f = fee(XRPLDoorAccount::Main);
	let to = H160(sx::bytes());
	let (how, tag) = match sx::choose(4) {
		0 => (0, None),
		1 => (1, Some(sx::u32())),
		2 => (2, None),
		_ => (2, Some(sx::u32())),
	};
	let r = with_layer(|| match how {
		0 => Pallet::<T>::withdraw_xrp(signed!(acc(0)), amount, to),
		1 => Pallet::<T>::withdraw_xrp_with_destination_tag(signed!(acc(0)), amount, to, tag.unwrap()),
		_ => Pallet::<T>::withdraw(signed!(acc(0)), XRP, amount, to, tag),
	});
	if r.is_ok() {
		sx::reach("withdrawn");
		sx::check(amount > 0 && b - Ledger::bal(XRP, &acc(0)) == amount + f as u128, "the sender pays exactly the amount and the fee");
		sx::check(s - Ledger::supply(XRP) == amount + f as u128, "what is withdrawn is burnt");
		sx::check(amount <= u64::MAX as u128, "XRPL pays out what was burnt");
		sx::check(Sent::get() == vec![pay(&to, amount as u64, c, f, tag)], "one payment of exactly the amount to the receiver is signed");
		sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::Main) == c + 1 && left, "the payment uses a ticket of its own");
	} else {
		sx::reach("refused");
		sx::check(Ledger::bal(XRP, &acc(0)) == b && Ledger::supply(XRP) == s && Sent::get().is_empty(), "a refused withdrawal costs nothing");
		sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::Main) == c, "a refused withdrawal uses no ticket");
		let fits = amount.checked_add(f as u128).map_or(false, |x| x <= b) && amount + (f as u128) <= u64::MAX as u128;
		sx::check(!open || SignFail::get() || !left || amount == 0 || !fits, "whoever can pay can withdraw");
	}
	sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::NFT) == c, "the other door's tickets are untouched");
}
/// The value a message carries: mantissa and exponent.
fn value(m: &[u8]) -> (u64, i8) {
	let o = 3 + 40 + 1;
	(u64::from_be_bytes(m[o..o + 8].try_into().unwrap()), m[o + 8] as i8)
}
fn pay_asset(to: &H160, m: u64, e: i8, k: u8, ticket: u32, fee: u64, tag: Option<u32>) -> Vec<u8> {
	let mut v = cat(&[&[if tag.is_some() { 4 } else { 3 }, 1, 0], &MAIN, &to.0, &[1], &m.to_be_bytes(), &[e as u8, 1], &[k; 20], &[k + 1; 20], &tail(ticket, fee)]);
	if let Some(t) = tag {
		v.extend_from_slice(&t.to_be_bytes());
	}
	v
}
/// Withdrawing ROOT or another asset of amounts in `lo..hi`.
fn asset(lo: u128, hi: u128, decimals: u8, full: bool) {
	unsafe { DECIMALS = decimals };
	door();
	let (c, left) = if full {
		tickets()
	} else {
		DoorTicketSequence::<T>::insert(XRPLDoorAccount::Main, 5);
		DoorTicketSequenceParams::<T>::insert(XRPLDoorAccount::Main, XrplTicketSequenceParams { start_sequence: 5, bucket_size: 5 });
		(5, true)
	};
	let open = !full || sx::bool();
	if open {
		DoorAddress::<T>::insert(XRPLDoorAccount::Main, H160(MAIN));
	}
	let mapped = !full || sx::bool();
	if mapped {
		currencies();
	}
	SignFail::put(full && sx::bool());
	xrp(0);
	let root = sx::bool();
	let a = if root { ROOT } else { TOK };
	let (b, p) = (sx::u128(), sx::u128());
	sx::assume(b < 1 << 100 && p < 1 << 100);
	Ledger::set(a, &acc(0), b);
	Ledger::set(a, &pallet(), p);
	Ledger::create(a, 1 << 102);
	let x0 = Ledger::bal(XRP, &acc(0));
	let xs = Ledger::supply(XRP);
	let amount = sx::u128();
	sx::assume(amount >= lo && amount < hi);
	let f = fee(XRPLDoorAccount::Main) as u128;
	let to = H160(sx::bytes());
	let tag = if sx::bool() { Some(sx::u32()) } else { None };
	let r = with_layer(|| Pallet::<T>::withdraw(signed!(acc(0)), a, amount, to, tag));
	if r.is_ok() {
		sx::reach("withdrawn");
		let sent = Sent::get();
		sx::check(sent.len() == 1, "one payment is signed");
		let (m, e) = value(&sent[0]);
		let e10 = (e + decimals as i8) as u32;
		sx::check(e10 < 24 && m < 10_000_000_000_000_000, "the amount has at most 16 digits");
		let paid = m as u128 * 10u128.pow(e10);
		let burnt = b - Ledger::bal(a, &acc(0));
		sx::check(burnt == paid, "XRPL pays out what was burnt");
		sx::check(paid > 0 && paid <= amount && amount - paid < 10u128.pow(decimals as u32), "at most a fraction of one token is left out");
		sx::check(sent[0] == pay_asset(&to, m, e, if root { 2 } else { 1 }, c, f as u64, tag), "the payment is in the asset's currency, to the receiver");
		sx::check(x0 - Ledger::bal(XRP, &acc(0)) == f && xs - Ledger::supply(XRP) == f, "the sender pays the fee in XRP");
		if root {
			sx::check(Ledger::bal(a, &pallet()) - p == burnt && Ledger::supply(a) == 1 << 102, "ROOT is kept by the bridge");
		} else {
			sx::check(Ledger::bal(a, &pallet()) == p && Ledger::supply(a) == (1 << 102) - burnt, "what is withdrawn is burnt");
		}
		sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::Main) == c + 1 && left, "the payment uses a ticket of its own");
	} else {
		sx::reach("refused");
		sx::check(Ledger::bal(a, &acc(0)) == b && Ledger::bal(a, &pallet()) == p && Ledger::bal(XRP, &acc(0)) == x0 && Ledger::supply(a) == 1 << 102 && Ledger::supply(XRP) == xs, "a refused withdrawal costs nothing");
		sx::check(Sent::get().is_empty() && DoorTicketSequence::<T>::get(XRPLDoorAccount::Main) == c, "a refused withdrawal does nothing");
		sx::check(!open || !mapped || SignFail::get() || !left || amount == 0 || amount > b || f > x0 || (amount > 10_000_000_000_000_000 && decimals == 0) || amount >= 10_000_000_000_000_000_000, "whoever can pay can withdraw");
	}
}
#[no_mangle]
pub extern "C" fn h_withdraw_asset() {
	asset(0, 10_000_000_000_000_000, 6, true);
}
#[no_mangle]
pub extern "C" fn h_withdraw_big() {
	asset(10_000_000_000_000_000, 1_000_000_000_000_000_000, 6, false);
}
#[no_mangle]
pub extern "C" fn h_withdraw_big_0() {
	asset(10_000_000_000_000_000, 100_000_000_000_000_000, 0, false);
}
#[no_mangle]
pub extern "C" fn h_withdraw_18() {
	asset(1_000_000_000_000_000, 1_000_000_000_000_000_000, 18, false);
}
#[no_mangle]
pub extern "C" fn h_withdraw_20() {
	asset(0, 10_000_000_000_000_000, 20, false);
}
/// A large withdrawal is delayed.
#[no_mangle]
pub extern "C" fn h_delay() {
	door();
	DoorAddress::<T>::insert(XRPLDoorAccount::Main, H160(MAIN));
	DoorTicketSequence::<T>::insert(XRPLDoorAccount::Main, 5);
	DoorTicketSequenceParams::<T>::insert(XRPLDoorAccount::Main, XrplTicketSequenceParams { start_sequence: 5, bucket_size: 5 });
	currencies();
	xrp(0);
	let now = sx::u32();
	set_block(now);
	let a = if sx::bool() { XRP } else { TOK };
	Ledger::set(TOK, &acc(0), 1 << 60);
	Ledger::create(TOK, 1 << 60);
	let (th, delay) = (sx::u128(), sx::u32());
	PaymentDelay::<T>::insert(a, (th, delay));
	PaymentDelay::<T>::insert(9, (0, 3));
	let id = sx::u64();
	NextDelayedPaymentId::<T>::put(id);
	let at = now.saturating_add(delay);
	let n = sx::choose(3) as usize;
	let old: Vec<u64> = [71u64, 72][..n].to_vec();
	if n > 0 {
		DelayedPaymentSchedule::<T>::insert(at, BoundedVec::try_from(old.clone()).ok().unwrap());
	}
	let amount = sx::u128();
	sx::assume(amount < 1 << 50);
	let to = H160(sx::bytes());
	let tag = if sx::bool() { Some(sx::u32()) } else { None };
	let b0 = (Ledger::bal(a, &acc(0)), Ledger::bal(XRP, &acc(0)));
	let r = with_layer(|| Pallet::<T>::withdraw(signed!(acc(0)), a, amount, to, tag));
	let f = fee(XRPLDoorAccount::Main);
	let mut q = old.clone();
	if r.is_ok() {
		let cost = if a == XRP { amount + f as u128 } else { amount };
		sx::check(b0.0 - Ledger::bal(a, &acc(0)) == cost && (a == XRP || b0.1 - Ledger::bal(XRP, &acc(0)) == f as u128), "the sender pays at once");
		if amount >= th {
			sx::reach("delayed");
			sx::check(Sent::get().is_empty(), "a large withdrawal is not signed at once");
			q.push(id);
			let d = DelayedPayments::<T>::get(id);
			let tx = if a == XRP {
				WithdrawTransaction::XRP(XrpWithdrawTransaction { tx_fee: f, tx_nonce: 0, tx_ticket_sequence: 5, amount, destination: to })
			} else {
				WithdrawTransaction::Asset(AssetWithdrawTransaction { tx_fee: f, tx_nonce: 0, tx_ticket_sequence: 5, amount, destination: to, asset_id: TOK, currency: cur(1).symbol, issuer: cur(1).issuer })
			};
			sx::check(d == Some(DelayedWithdrawal { sender: acc(0), destination_tag: tag, withdraw_tx: tx }), "exactly this withdrawal is kept");
			sx::check(NextDelayedPaymentId::<T>::get() == id + 1, "every delayed withdrawal has its own id");
		} else {
			sx::reach("at once");
			sx::check(Sent::get().len() == 1 && NextDelayedPaymentId::<T>::get() == id, "a small withdrawal is signed at once");
		}
	} else {
		sx::reach("refused");
		sx::check(Ledger::bal(a, &acc(0)) == b0.0 && Ledger::bal(XRP, &acc(0)) == b0.1 && Sent::get().is_empty() && NextDelayedPaymentId::<T>::get() == id, "a refused withdrawal costs nothing");
		let short = if a == XRP { amount + f as u128 > b0.0 } else { f as u128 > b0.1 };
		// the payment and its fee are a u64 on XRPL
		let fits = a != XRP || amount + f as u128 <= u64::MAX as u128;
		sx::check(amount == 0 || short || !fits || (amount >= th && (n == 2 || id == u64::MAX)), "whoever can pay can withdraw");
	}
	sx::check(DelayedPaymentSchedule::<T>::get(at).map(|v| v.into_inner()).unwrap_or_default() == q, "it is due exactly after the delay");
}
/// Signing the delayed withdrawals.
#[no_mangle]
pub extern "C" fn h_delayed() {
	door();
	let open = sx::bool();
	if open {
		DoorAddress::<T>::insert(XRPLDoorAccount::Main, H160(MAIN));
	}
	let next = sx::u32();
	sx::assume(next < u32::MAX - 100);
	NextDelayProcessBlock::<T>::put(next);
	let now = sx::u32();
	sx::assume(now < u32::MAX - 50 && next <= now.saturating_add(1));
	let mut all = vec![];
	for i in 0..3u32 {
		let k = sx::choose(3) as usize;
		let ids: Vec<u64> = [10 + 2 * i as u64, 11 + 2 * i as u64][..k].to_vec();
		for id in &ids {
			let to = H160([*id as u8; 20]);
			let tag = if *id == 11 { Some(44) } else { None };
			let tx = WithdrawTransaction::XRP(XrpWithdrawTransaction { tx_fee: 3, tx_nonce: 0, tx_ticket_sequence: *id as u32, amount: 1000 + *id as u128, destination: to });
			DelayedPayments::<T>::insert(*id, DelayedWithdrawal { sender: acc(0), destination_tag: tag, withdraw_tx: tx });
			all.push((next + i, *id, pay(&to, 1000 + id, *id as u32, 3, tag)));
		}
		if k > 0 {
			DelayedPaymentSchedule::<T>::insert(next + i, BoundedVec::try_from(ids).ok().unwrap());
		}
	}
	let w = sx::u64();
	Pallet::<T>::process_delayed_payments(now, Weight::from_parts(w, 0));
	sx::reach("done");
	let sent = Sent::get();
	if !sent.is_empty() {
		sx::reach("sent");
	}
	sx::check(sent.len() <= all.len() && sent.iter().zip(all.iter()).all(|(m, x)| *m == x.2), "delayed withdrawals are signed as they were made, in order");
	sx::check(open || sent.is_empty(), "nothing is sent without a door");
	let n2 = NextDelayProcessBlock::<T>::get();
	sx::check(n2 >= next && n2 <= now.saturating_add(1).max(next), "later blocks wait");
	for (i, (b, id, _)) in all.iter().enumerate() {
		let done = i < sent.len();
		sx::check(!done || *b <= now, "a delayed withdrawal is not signed before its block");
		sx::check(DelayedPayments::<T>::contains_key(id) == !done, "a signed withdrawal is forgotten, another is kept");
		let q = DelayedPaymentSchedule::<T>::get(*b).map(|v| v.into_inner()).unwrap_or_default();
		sx::check(q.contains(id) == !done, "a withdrawal stays due until it is signed");
		sx::check(done || *b >= n2, "no withdrawal is passed over");
		sx::check(done || !open || w < 10_000_000_000 || *b > now, "with enough weight what is due is signed");
	}
}
// ---------------------------------------------------------------- tickets and doors
fn params(d: XRPLDoorAccount) -> (u32, u32) {
	let p = DoorTicketSequenceParams::<T>::get(d);
	(p.start_sequence, p.bucket_size)
}
fn nextp(d: XRPLDoorAccount) -> (u32, u32) {
	let p = DoorTicketSequenceParamsNext::<T>::get(d);
	(p.start_sequence, p.bucket_size)
}
fn any_params() -> XrplTicketSequenceParams {
	XrplTicketSequenceParams { start_sequence: sx::u32(), bucket_size: sx::u32() }
}
/// Any tickets that lie in or right after the current bucket.
fn any_tickets(d: XRPLDoorAccount) -> u32 {
	let (c, p, n) = (sx::u32(), any_params(), any_params());
	sx::assume(c >= p.start_sequence);
	DoorTicketSequence::<T>::insert(d, c);
	DoorTicketSequenceParams::<T>::insert(d, p);
	if sx::bool() {
		// no empty bucket is ever allocated
		sx::assume(n.bucket_size > 0);
		DoorTicketSequenceParamsNext::<T>::insert(d, n);
	}
	TicketSequenceThresholdReachedEmitted::<T>::insert(d, sx::bool());
	c
}
/// Taking a ticket.
#[no_mangle]
pub extern "C" fn h_ticket() {
	let d = if sx::bool() { XRPLDoorAccount::Main } else { XRPLDoorAccount::NFT };
	let other = if d == XRPLDoorAccount::Main { XRPLDoorAccount::NFT } else { XRPLDoorAccount::Main };
	let c = any_tickets(d);
	let c2 = sx::u32();
	DoorTicketSequence::<T>::insert(other, c2);
	let (p, n) = (params(d), nextp(d));
	let r = with_layer(|| Pallet::<T>::get_door_ticket_sequence(d));
	match r {
		Ok(t) => {
			sx::reach("ticket");
			sx::check(t >= c, "no ticket is used twice");
			sx::check(DoorTicketSequence::<T>::get(d) == t + 1, "no ticket is used twice");
			let q = params(d);
			sx::check(t >= q.0 && (t as u64) < q.0 as u64 + q.1 as u64, "a ticket is from an allocated bucket");
			if q == p && t == c {
				sx::reach("same bucket");
			} else {
				sx::reach("next bucket");
				sx::check(c as u64 >= p.0 as u64 + p.1 as u64, "a bucket is used up before the next");
				sx::check(q == n && t == n.0.max(c) && nextp(d) == (0, 0), "then the next allocation becomes current");
			}
		},
		Err(_) => {
			sx::reach("none");
			sx::check(DoorTicketSequence::<T>::get(d) == c && params(d) == p && nextp(d) == n, "a refusal changes nothing");
			let end = p.0 as u64 + p.1 as u64;
			sx::check(end > u32::MAX as u64 || c == u32::MAX || (c as u64 >= end && (n == (0, 0) || n.0 == p.0 || c as u64 >= n.0 as u64 + n.1 as u64 || n.0 == u32::MAX)), "a ticket of the bucket can be taken");
		},
	}
	sx::check(DoorTicketSequence::<T>::get(other) == c2, "the other door's tickets are untouched");
}
/// Allocating tickets.
#[no_mangle]
pub extern "C" fn h_allocate() {
	let d = if sx::bool() { XRPLDoorAccount::Main } else { XRPLDoorAccount::NFT };
	let c = any_tickets(d);
	let (p, n) = (params(d), nextp(d));
	let rel = sx::choose(3);
	if rel > 0 {
		Relayer::<T>::insert(acc(0), rel == 1);
	}
	let (t, s, b) = (sx::u32(), sx::u32(), sx::u32());
	let cur = sx::bool();
	let root = sx::bool();
	let r = with_layer(|| {
		if cur {
			Pallet::<T>::set_ticket_sequence_current_allocation(origin(root, acc(0)), d, t, s, b)
		} else {
			Pallet::<T>::set_ticket_sequence_next_allocation(origin(root, acc(0)), d, s, b)
		}
	});
	if r.is_ok() {
		sx::reach("allocated");
		sx::check(b > 0 && s >= p.0, "allocations move forward");
		if cur {
			sx::check(root && t >= c, "governance cannot hand out used tickets");
			sx::check(DoorTicketSequence::<T>::get(d) == t && params(d) == (s, b) && nextp(d) == n, "the current allocation is set");
		} else {
			sx::check(!root && rel == 1 && s >= c, "relayers allocate unused tickets");
			sx::check(DoorTicketSequence::<T>::get(d) == c && params(d) == p && nextp(d) == (s, b), "the next allocation is set");
		}
	} else {
		sx::reach("refused");
		sx::check(DoorTicketSequence::<T>::get(d) == c && params(d) == p && nextp(d) == n, "a refusal changes nothing");
	}
}
/// The notaries' new signer list goes to both doors.
#[no_mangle]
pub extern "C" fn h_signers() {
	door();
	let (c, left) = tickets();
	let (m, n) = (sx::bool(), sx::bool());
	if m {
		DoorAddress::<T>::insert(XRPLDoorAccount::Main, H160(MAIN));
	}
	if n {
		DoorAddress::<T>::insert(XRPLDoorAccount::NFT, H160(NFT));
	}
	let k = sx::choose(4) as usize;
	let e: Vec<(H160, u16)> = (0..k).map(|_| (H160(sx::bytes()), sx::u16())).collect();
	let r = with_layer(|| <Pallet<T> as EthyToXrplBridgeAdapter<H160>>::submit_signer_list_set_request(e.clone()));
	if let Ok(ids) = r {
		sx::reach("requested");
		sx::check(m && n && left, "both doors are configured");
		let list: Vec<u8> = e.iter().flat_map(|(a, w)| [a.0.to_vec(), w.to_be_bytes().to_vec()].concat()).collect();
		let want = |a: &[u8; 20], f: u64| {
			cat(&[&[5, 1, 0], a, &f.to_be_bytes(), &0u32.to_be_bytes(), &c.to_be_bytes(), &(k.saturating_sub(1) as u32).to_be_bytes(), &[k as u8], &list, &SourceTag::<T>::get().to_be_bytes()])
		};
		sx::check(Sent::get() == vec![want(&MAIN, fee(XRPLDoorAccount::Main)), want(&NFT, fee(XRPLDoorAccount::NFT))], "each door gets exactly the new signers, all but one of whom must sign");
		sx::check(ids == vec![1, 2], "both proofs are named");
	} else {
		sx::reach("refused");
		sx::check(!(m && n && left) && Sent::get().is_empty(), "a refusal sends nothing");
	}
}
/// NFTs leave for XRPL, and offers are accepted.
#[no_mangle]
pub extern "C" fn h_nft() {
	door();
	let (c, left) = tickets();
	let open = sx::bool();
	if open {
		DoorAddress::<T>::insert(XRPLDoorAccount::NFT, H160(NFT));
	}
	SignFail::put(sx::bool());
	let compat = sx::choose(3);
	if compat > 0 {
		Compat::insert(7, compat == 1);
	}
	let s = sx::u32();
	let id = sx::bytes::<32>();
	let known = sx::bool();
	if known {
		XlsId::insert((7, s), id);
	}
	let rel = sx::choose(3);
	if rel > 0 {
		Relayer::<T>::insert(acc(1), rel == 1);
	}
	let who = pick_acc(2);
	let to = H160(sx::bytes());
	let accept = sx::bool();
	let offer = sx::bytes::<32>();
	let r = with_layer(|| {
		if accept {
			Pallet::<T>::generate_nft_accept_offer(signed!(who), offer)
		} else {
			Pallet::<T>::withdraw_nft(signed!(who), (7, s), to)
		}
	});
	let ready = open && left && !SignFail::get();
	let may = if accept { who == acc(1) && rel == 1 } else { who == acc(0) && compat == 1 && known };
	if r.is_ok() {
		sx::reach("signed");
		sx::check(ready && may, "only relayers accept offers, only owners of mapped tokens withdraw");
		let f = fee(XRPLDoorAccount::NFT);
		if accept {
			sx::check(Sent::get() == vec![cat(&[&[6, 1, 0], &NFT, &offer, &tail(c, f)])], "exactly that offer is accepted");
			sx::check(Burnt::get().is_empty(), "accepting burns nothing");
		} else {
			sx::check(Burnt::get() == vec![(who, 7, s)], "the token is burnt");
			sx::check(Sent::get() == vec![cat(&[&[7, 1, 0], &NFT, &to.0, &id, &0u64.to_be_bytes(), &tail(c, f)])], "exactly its XRPL token is offered to the receiver, for nothing");
		}
		sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::NFT) == c + 1, "it uses a ticket of its own");
	} else {
		sx::reach("refused");
		sx::check(!(ready && may), "who may can");
		sx::check(Sent::get().is_empty() && Burnt::get().is_empty() && DoorTicketSequence::<T>::get(XRPLDoorAccount::NFT) == c, "a refusal changes nothing");
	}
	sx::check(DoorTicketSequence::<T>::get(XRPLDoorAccount::Main) == c, "the other door's tickets are untouched");
}
