#![allow(non_snake_case)]
use codec::Encode;
use ethabi::Token;
use frame_support::traits::{schedule, Hooks, OneSessionHandler, UnixTime, ValidatorSet as VSet};
use frame_support::weights::Weight;
use frame_support::BoundedVec;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_ethy::*;
use seed_pallet_common::*;
use seed_primitives::ethy::{crypto::{AuthorityId, AuthoritySignature}, EthyEcdsaToEthereum, EthyEcdsaToXRPLAccountId};
use sp_core::{bounded::WeakBoundedVec, H160, H256, U256};
use sp_runtime::{generic::DigestItem, traits::{AccountIdConversion, Convert}, DispatchError, Percent};

type Id = AuthorityId;
sys!(T, RtCall);
/// The runtime call: only the bridge's own calls matter here.
#[derive(Clone, PartialEq, Debug)]
pub struct RtCall(Option<Call<T>>);
impl Eq for RtCall {}
impl codec::Encode for RtCall {
	fn encode_to<O: codec::Output + ?Sized>(&self, _o: &mut O) {}
	fn sclone(&self) -> Self {
		self.clone()
	}
	fn seq(&self, o: &Self) -> bool {
		self == o
	}
}
impl codec::Decode for RtCall {
	fn decode<I: codec::Input>(_i: &mut I) -> Result<Self, codec::Error> {
		Ok(RtCall(None))
	}
}
impl From<frame_system::Call<T>> for RtCall {
	fn from(_: frame_system::Call<T>) -> Self {
		RtCall(None)
	}
}
impl From<Call<T>> for RtCall {
	fn from(c: Call<T>) -> Self {
		RtCall(Some(c))
	}
}
impl frame_support::dispatch::Dispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	type Config = ();
	type Info = frame_support::dispatch::DispatchInfo;
	type PostInfo = frame_support::dispatch::PostDispatchInfo;
	fn dispatch(self, _o: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl frame_support::traits::UnfilteredDispatchable for RtCall {
	type RuntimeOrigin = <T as frame_system::Config>::RuntimeOrigin;
	fn dispatch_bypass_filter(self, _o: Self::RuntimeOrigin) -> frame_support::dispatch::DispatchResultWithPostInfo {
		Ok(().into())
	}
}
impl frame_support::dispatch::GetDispatchInfo for RtCall {
	fn get_dispatch_info(&self) -> frame_support::dispatch::DispatchInfo {
		Default::default()
	}
}
prefix!(PThr);
prefix!(PCB);
prefix!(PRB);
prefix!(PVals);
prefix!(PFinal);
prefix!(PRouted);
prefix!(PRouteOk);
prefix!(PSched);
prefix!(PSchedFail);
prefix!(PDone);
prefix!(PFailed);
prefix!(PSigners);
prefix!(PSubmitted);
type Thr = StorageValue<PThr, u8, ValueQuery>;
type CBond = StorageValue<PCB, u128, ValueQuery>;
type RBond = StorageValue<PRB, u128, ValueQuery>;
type NVals = StorageValue<PVals, u32, ValueQuery>;
type IsFinal = StorageValue<PFinal, bool, ValueQuery>;
type Routed = StorageValue<PRouted, Vec<(H160, H160, Vec<u8>)>, ValueQuery>;
type RouteOk = StorageValue<PRouteOk, bool, ValueQuery>;
type Sched = StorageValue<PSched, Vec<(u32, RtCall)>, ValueQuery>;
type SchedFail = StorageValue<PSchedFail, bool, ValueQuery>;
type Done = StorageValue<PDone, Vec<(u64, [u8; 32], u64, u64)>, ValueQuery>;
type Failed = StorageValue<PFailed, Vec<u64>, ValueQuery>;
type Signers = StorageValue<PSigners, Vec<Vec<(H160, u16)>>, ValueQuery>;
pub struct ThrG;
impl frame_support::traits::Get<Percent> for ThrG {
	fn get() -> Percent {
		Percent::from_parts(Thr::get())
	}
}
pub struct CBondG;
impl frame_support::traits::Get<u128> for CBondG {
	fn get() -> u128 {
		CBond::get()
	}
}
pub struct RBondG;
impl frame_support::traits::Get<u128> for RBondG {
	fn get() -> u128 {
		RBond::get()
	}
}
pub struct Env;
impl VSet<Acc> for Env {
	type ValidatorId = Acc;
	type ValidatorIdOf = IdOf;
	fn session_index() -> u32 {
		0
	}
	fn validators() -> Vec<Acc> {
		(0..NVals::get()).map(|i| acc(i as u8)).collect()
	}
}
pub struct IdOf;
impl Convert<Acc, Option<Acc>> for IdOf {
	fn convert(a: Acc) -> Option<Acc> {
		Some(a)
	}
}
impl FinalSessionTracker for Env {
	fn is_active_session_final() -> bool {
		IsFinal::get()
	}
}
impl EthereumEventRouter for Env {
	fn route(source: &H160, destination: &H160, data: &[u8]) -> EventRouterResult {
		Routed::mutate(|v| v.push((*source, *destination, data.to_vec())));
		if RouteOk::get() {
			Ok(Weight::zero())
		} else {
			Err((Weight::zero(), EventRouterError::NoReceiver))
		}
	}
}
impl EthCallOracleSubscriber for Env {
	type CallId = u64;
	fn on_eth_call_complete(id: u64, d: &[u8; 32], b: u64, t: u64) {
		Done::mutate(|v| v.push((id, *d, b, t)))
	}
	fn on_eth_call_failed(id: u64, _r: EthCallFailure) {
		Failed::mutate(|v| v.push(id))
	}
}
impl schedule::Anon<u32, RtCall, frame_system::RawOrigin<Acc>> for Env {
	type Address = ();
	fn schedule(w: schedule::DispatchTime<u32>, _p: Option<schedule::Period<u32>>, _pr: u8, _o: frame_system::RawOrigin<Acc>, c: RtCall) -> Result<(), DispatchError> {
		if SchedFail::get() {
			return Err(DispatchError::Other("sched"));
		}
		let b = match w {
			schedule::DispatchTime::At(b) => b,
			schedule::DispatchTime::After(_) => u32::MAX,
		};
		Sched::mutate(|v| v.push((b, c)));
		Ok(())
	}
	fn cancel(_a: ()) -> Result<(), ()> {
		Ok(())
	}
}
impl EthyToXrplBridgeAdapter<H160> for Env {
	fn submit_signer_list_set_request(s: Vec<(H160, u16)>) -> Result<Vec<u64>, DispatchError> {
		Signers::mutate(|v| v.push(s));
		if sx::bool() {
			Ok(vec![7])
		} else {
			Err(DispatchError::Other("xrpl"))
		}
	}
}
impl UnixTime for Env {
	fn now() -> core::time::Duration {
		core::time::Duration::from_secs(NOW)
	}
}
const NOW: u64 = 1000;
/// The node's view of Ethereum.
static mut RECEIPT: Option<Result<Option<TransactionReceipt>, BridgeRpcError>> = None;
static mut OLDER: Option<Result<Option<EthBlock>, BridgeRpcError>> = None;
static mut TRYB: u64 = 0;
static mut CALLED: Vec<(EthAddress, Vec<u8>, u64)> = Vec::new();
static mut RETURN: Option<Result<Vec<u8>, BridgeRpcError>> = None;
static mut HEAD: Option<Result<Option<EthBlock>, BridgeRpcError>> = None;
impl BridgeEthereumRpcApi for Env {
	fn get_block_by_number(n: LatestOrNumber) -> Result<Option<EthBlock>, BridgeRpcError> {
		match n {
			LatestOrNumber::Latest => unsafe { (*core::ptr::addr_of!(HEAD)).clone().unwrap() },
			LatestOrNumber::Number(n) => {
				let n0 = unsafe { TRYB };
				sx::check(n == n0, "the node looks up the block the request names");
				unsafe { (*core::ptr::addr_of!(OLDER)).clone().unwrap() }
			},
		}
	}
	fn get_transaction_receipt(_h: EthHash) -> Result<Option<TransactionReceipt>, BridgeRpcError> {
		unsafe { (*core::ptr::addr_of!(RECEIPT)).clone().unwrap() }
	}
	fn eth_call(t: EthAddress, i: &[u8], b: LatestOrNumber) -> Result<Vec<u8>, BridgeRpcError> {
		let b = match b {
			LatestOrNumber::Latest => u64::MAX,
			LatestOrNumber::Number(n) => n,
		};
		unsafe {
			(*core::ptr::addr_of_mut!(CALLED)).push((t, i.to_vec(), b));
			(*core::ptr::addr_of!(RETURN)).clone().unwrap()
		}
	}
}
impl frame_system::offchain::SendTransactionTypes<Call<T>> for T {
	type Extrinsic = ();
	type OverarchingCall = RtCall;
}
impl frame_system::offchain::SigningTypes for T {}
impl frame_system::offchain::CreateSignedTransaction<Call<T>> for T {}
konst! {
	ChangeDelay: u32 = 75;
	BridgeId: PalletId = PalletId(*b"ethybrdg");
	Epoch: u64 = 1000;
	Native: u32 = 1;
	MaxSigners: u8 = 20;
	MaxProc: u32 = 3;
	MaxXrpl: u8 = 2;
	MaxAuth: u32 = 8;
	MaxData: u32 = 320;
	MaxChal: u32 = 2;
	MaxMsg: u32 = 4;
	MaxCalls: u32 = 4;
}
impl pallet_ethy::Config for T {
	type AuthorityChangeDelay = ChangeDelay;
	type AuthoritySet = Env;
	type BridgePalletId = BridgeId;
	type RuntimeCall = RtCall;
	type ChallengeBond = CBondG;
	type EpochDuration = Epoch;
	type EthCallSubscribers = Env;
	type EthereumRpcClient = Env;
	type RuntimeEvent = ();
	type EventRouter = Env;
	type EthyId = Id;
	type FinalSessionTracker = Env;
	type MaxNewSigners = MaxSigners;
	type MultiCurrency = Ledger;
	type NativeAssetId = Native;
	type NotarizationThreshold = ThrG;
	type RelayerBond = RBondG;
	type Scheduler = Env;
	type PalletsOrigin = frame_system::RawOrigin<Acc>;
	type MaxProcessedMessageIds = MaxProc;
	type UnixTime = Env;
	type MaxXrplKeys = MaxXrpl;
	type XrplBridgeAdapter = Env;
	type MaxAuthorities = MaxAuth;
	type MaxEthData = MaxData;
	type MaxChallenges = MaxChal;
	type MaxMessagesPerBlock = MaxMsg;
	type MaxCallRequests = MaxCalls;
	type WeightInfo = ();
}
type Ethy = Pallet<T>;
fn key(n: u8) -> Id {
	let mut b = [n; 33];
	b[0] = 2;
	Id::from(sp_core::ecdsa::Public::from_raw(b))
}
fn relayer() -> Acc {
	acc(7)
}
fn challenger() -> Acc {
	acc(6)
}
fn eqb(a: &[u8], b: &[u8]) -> bool {
	a.len() == b.len() && a.iter().zip(b).fold(0u8, |x, (p, q)| x | (p ^ q)) == 0
}
fn wb<A, S: frame_support::traits::Get<u32>>(v: Vec<A>) -> WeakBoundedVec<A, S> {
	WeakBoundedVec::force_from(v, None)
}

// ---------------------------------------------------------------- messages from Ethereum
const DUE: u32 = 500;
const LATER: u32 = 600;
fn ascending(n: usize) -> Vec<u64> {
	let v: Vec<u64> = (0..n).map(|_| sx::u64()).collect();
	for w in v.windows(2) {
		sx::assume(w[0] < w[1]);
	}
	v
}
/// Arbitrary consistent replay lists: ids up to the first entry of the processed list are processed unless missed.
fn history(np: usize, nm: usize) {
	let p = ascending(np);
	let m = ascending(nm);
	if nm > 0 {
		sx::assume(np > 0 && m[nm - 1] < p[0]);
	}
	for x in &p {
		sx::assume(*x < u64::MAX);
	}
	if np > 0 {
		ProcessedMessageIds::<T>::put(BoundedVec::truncate_from(p));
	}
	MissedMessageIds::<T>::put(m);
}
/// Has the message not been acted on, as far as the replay lists tell?
fn open(q: u64) -> bool {
	let p = ProcessedMessageIds::<T>::get().into_inner();
	let m = MissedMessageIds::<T>::get();
	let in_p = p.iter().fold(false, |x, y| x | (*y == q));
	let in_m = m.iter().fold(false, |x, y| x | (*y == q));
	!in_p & (p.is_empty() || (q > p[0]) | in_m)
}
fn in_missed(q: u64) -> bool {
	MissedMessageIds::<T>::get().iter().fold(false, |x, y| x | (*y == q))
}
fn lists_ok() -> bool {
	let p = ProcessedMessageIds::<T>::get().into_inner();
	let m = MissedMessageIds::<T>::get();
	let s = p.windows(2).fold(true, |x, w| x & (w[0] < w[1])) & m.windows(2).fold(true, |x, w| x & (w[0] < w[1]));
	s & (p.len() <= MaxProc::get() as usize) & (m.is_empty() || (!p.is_empty() && m[m.len() - 1] < p[0]))
}
struct Claim {
	id: u64,
	c: EventClaim<MaxData>,
	due: bool,
	st: u8,
}
fn status(s: u8) -> EventClaimStatus {
	[EventClaimStatus::Pending, EventClaimStatus::Challenged, EventClaimStatus::ProvenValid][s as usize].clone()
}
fn claim(k: u8) -> EventClaim<MaxData> {
	EventClaim { tx_hash: H256(sx::bytes()), source: H160(sx::bytes()), destination: H160(sx::bytes()), data: BoundedVec::truncate_from({
		let mut d = sx::vec(2);
		d.push(k);
		d
	}) }
}
/// Pending claims with distinct open ids, each queued once, due now or later.
fn claims(n: usize) -> Vec<Claim> {
	let mut v: Vec<Claim> = vec![];
	for k in 0..n {
		let id = sx::u64();
		sx::assume(open(id) && id < u64::MAX);
		for o in &v {
			sx::assume(o.id != id);
		}
		let due = sx::bool();
		let st = sx::choose(3) as u8;
		v.push(Claim { id, c: claim(k as u8), due, st });
	}
	let mut q = [vec![], vec![]];
	for c in &v {
		PendingEventClaims::<T>::insert(c.id, c.c.clone());
		PendingClaimStatus::<T>::insert(c.id, status(c.st));
		if c.st == 1 {
			ChallengerAccount::<T>::insert(c.id, (challenger(), CBond::get()));
			let _ = PendingClaimChallenges::<T>::try_append(c.id);
		}
		q[if c.due { 0 } else { 1 }].push(c.id);
	}
	MessagesValidAt::<T>::insert(DUE, wb(q[0].clone()));
	MessagesValidAt::<T>::insert(LATER, wb(q[1].clone()));
	v
}
fn queued(b: u32, q: u64) -> u32 {
	MessagesValidAt::<T>::get(b).iter().fold(0, |x, y| x + (*y == q) as u32)
}
fn period() -> u32 {
	let p = sx::u32();
	sx::assume(p > 0 && p < 1 << 30);
	ChallengePeriod::<T>::put(p);
	p
}
/// A message whose claim was found invalid, still listed for a block to come.
fn invalidated(id: u64, due: bool) {
	InvalidClaims::<T>::insert(id, ());
	let b = if due { DUE } else { LATER };
	let mut v = MessagesValidAt::<T>::get(b).into_inner();
	v.push(id);
	MessagesValidAt::<T>::insert(b, wb(v));
}
/// A block is reached: what happens to each message that is due.
fn due(np: usize, nm: usize, nc: usize, inv: bool) {
	history(np, nm);
	let cs = claims(nc);
	if np >= 2 {
		// skipped ids are listed one by one: keep the distances small
		let p = ProcessedMessageIds::<T>::get();
		sx::assume(p[0] < u64::MAX - 16 && p[np - 1] < p[0] + 5);
		for c in &cs {
			sx::assume(c.id < p[0] + 7);
		}
	}
	let x = sx::u64();
	let xdue = sx::bool();
	if inv {
		sx::assume(open(x) && x < u64::MAX);
		for c in &cs {
			sx::assume(c.id != x);
		}
		invalidated(x, xdue);
	}
	let per = period();
	RouteOk::put(sx::bool());
	set_block(DUE);
	let q = sx::u64();
	let was = open(q);
	let before: Vec<(Option<EventClaim<MaxData>>, Option<EventClaimStatus>)> = vec![(PendingEventClaims::<T>::get(q), PendingClaimStatus::<T>::get(q))];
	Ethy::on_initialize(DUE);
	let r = Routed::get();
	sx::check(r.len() == cs.iter().filter(|c| c.due && c.st != 1).count(), "exactly the unchallenged messages that are due are forwarded");
	for c in &cs {
		let n = r.iter().fold(0, |x, e| x + (e.0 == c.c.source && e.1 == c.c.destination && eqb(&e.2, &c.c.data)) as u32);
		if c.due && c.st != 1 {
			sx::reach("routed");
			sx::check(n == 1, "a message is forwarded once, with the submitted source, destination and data");
			sx::check(!PendingEventClaims::<T>::contains_key(c.id) && !PendingClaimStatus::<T>::contains_key(c.id), "a forwarded message is no longer pending");
			sx::check(!open(c.id), "a forwarded message can never be submitted again");
		} else {
			sx::reach("kept");
			sx::check(n == 0, "a challenged or later message is not forwarded");
			sx::check(PendingEventClaims::<T>::get(c.id) == Some(c.c.clone()) && PendingClaimStatus::<T>::get(c.id) == Some(status(c.st)), "a message that is not due keeps waiting");
			sx::check(if c.due { queued(DUE + per, c.id) == 1 } else { queued(LATER, c.id) == 1 }, "a message under challenge is put off by one challenge period");
		}
	}
	if inv {
		if np > 0 {
			sx::check(open(x), "a message whose claim was invalid can still be submitted");
		}
		sx::check(!PendingEventClaims::<T>::contains_key(x), "an invalid claim is gone");
		sx::check(InvalidClaims::<T>::contains_key(x) != xdue && queued(LATER, x) == (!xdue) as u32, "the block of an invalid claim passes without it");
		sx::reach("invalidated");
	}
	sx::check(queued(DUE, q) == 0, "the block's queue is emptied");
	let routed = cs.iter().fold(false, |x, c| x | (c.id == q && c.due && c.st != 1));
	if np > 0 {
		sx::check(open(q) == (was && !routed), "no other message becomes or stops being acceptable");
	} else {
		sx::check(!(routed || !was) || !open(q), "no message becomes acceptable again");
	}
	sx::check(lists_ok(), "the replay lists stay ordered and bounded");
	if !cs.iter().fold(false, |x, c| x | (c.id == q)) {
		sx::check(PendingEventClaims::<T>::get(q) == before[0].0 && PendingClaimStatus::<T>::get(q) == before[0].1, "nothing else changes");
	}
}
#[no_mangle]
pub extern "C" fn h_due_first() {
	due(0, 0, 2, false)
}
#[no_mangle]
pub extern "C" fn h_due_1() {
	due(1, 0, 2, false)
}
#[no_mangle]
pub extern "C" fn h_due_missed() {
	due(2, 1, 1, false)
}
#[no_mangle]
pub extern "C" fn h_due_missed2() {
	due(1, 2, 1, false)
}
#[no_mangle]
pub extern "C" fn h_due_2() {
	due(2, 0, 2, false)
}

#[no_mangle]
pub extern "C" fn h_due_invalid() {
	due(1, 1, 1, true)
}
#[no_mangle]
pub extern "C" fn h_due_invalid_first() {
	due(0, 0, 1, true)
}
const NOWB: u32 = 400;
fn who() -> Acc {
	acc(sx::choose(2) as u8 + 6)
}
/// A message is submitted (`missing`: one that was skipped).
fn submit(np: usize, nm: usize, nc: usize, missing: bool, inv: bool) {
	history(np, nm);
	let cs = claims(nc);
	let per = period();
	set_block(NOWB);
	let x = sx::u64();
	if inv {
		sx::assume(open(x) && x < u64::MAX && cs.iter().fold(true, |b, c| b & (c.id != x)));
		invalidated(x, true);
	}
	if sx::bool() {
		Relayer::<T>::put(relayer());
	}
	let w = who();
	let id = sx::u64();
	sx::assume(id < u64::MAX);
	let tx = H256(sx::bytes());
	let src = H160(sx::bytes());
	let dst = H160(sx::bytes());
	let data = { let n = sx::choose(3) as usize; sx::vec(n) };
	let ev = ethabi::encode(&[Token::Uint(id.into()), Token::Address(src), Token::Address(dst), Token::Bytes(data.clone()), Token::Uint(sx::u64().into())]);
	let q = sx::u64();
	let (pq, sq, oq, dq, lq, nq) = (PendingEventClaims::<T>::get(q), PendingClaimStatus::<T>::get(q), open(q), queued(DUE, q), queued(LATER, q), queued(NOWB + per, q));
	let fresh = if missing { in_missed(id) } else { open(id) && !in_missed(id) };
	let pend = PendingEventClaims::<T>::contains_key(id) || InvalidClaims::<T>::contains_key(id);
	let r = with_layer(|| if missing { Ethy::submit_missing_event(signed!(w.clone()), tx, ev.clone()) } else { Ethy::submit_event(signed!(w.clone()), tx, ev.clone()) });
	let may = Relayer::<T>::get() == Some(w.clone());
	if r.is_ok() {
		sx::reach("accepted");
		sx::check(may, "only the relayer submits messages");
		sx::check(fresh, "a message already acted on, or never skipped, is refused");
		sx::check(!pend, "a message that is pending is refused");
		let c = PendingEventClaims::<T>::get(id).unwrap();
		sx::check(c.tx_hash == tx && c.source == src && c.destination == dst && eqb(&c.data, &data), "the claim is what was submitted");
		sx::check(PendingClaimStatus::<T>::get(id) == Some(EventClaimStatus::Pending), "the claim can be challenged");
		sx::check(queued(NOWB + per, id) == 1, "the claim is due after the challenge period");
		if NOWB + per != DUE && NOWB + per != LATER {
			sx::check(queued(DUE, id) == 0 && queued(LATER, id) == 0, "the claim is due only once");
		}
		if q != id {
			sx::check(PendingEventClaims::<T>::get(q) == pq && PendingClaimStatus::<T>::get(q) == sq && queued(NOWB + per, q) == nq, "other messages are unaffected");
		}
	} else {
		sx::reach("refused");
		sx::check(PendingEventClaims::<T>::get(q) == pq && PendingClaimStatus::<T>::get(q) == sq && queued(DUE, q) == dq && queued(LATER, q) == lq && queued(NOWB + per, q) == nq, "a refused message changes nothing");
		sx::check(!(may && fresh && !pend), "the relayer can submit any message not acted on yet");
	}
	sx::check(open(q) == oq, "submitting does not change what was acted on");
}
#[no_mangle]
pub extern "C" fn h_submit() {
	submit(2, 1, 1, false, false)
}
#[no_mangle]
pub extern "C" fn h_submit_first() {
	submit(0, 0, 2, false, false)
}
#[no_mangle]
pub extern "C" fn h_submit_invalid() {
	submit(1, 0, 1, false, true)
}
#[no_mangle]
pub extern "C" fn h_missing() {
	submit(1, 2, 1, true, true)
}
/// Malformed data never becomes a claim.
#[no_mangle]
pub extern "C" fn h_malformed() {
	Relayer::<T>::put(relayer());
	set_block(NOWB);
	let n = [0, 31, 32, 64, 96, 127, 128, 159][sx::choose(8) as usize];
	let ev = sx::vec(n);
	let q = sx::u64();
	let r = with_layer(|| Ethy::submit_event(signed!(relayer()), H256::zero(), ev.clone()));
	sx::check(r.is_err() && !PendingEventClaims::<T>::contains_key(q), "truncated data is refused");
	sx::reach("done");
}
/// Root clears skipped messages: exactly those in the range.
#[no_mangle]
pub extern "C" fn h_clear() {
	history(1, 3);
	let (a, b) = (sx::u64(), sx::u64());
	let q = sx::u64();
	let (was, o) = (in_missed(q), open(q));
	let root = sx::bool();
	let r = if root { Ethy::remove_missing_event_id(frame_system::RawOrigin::Root.into(), (a, b)) } else { Ethy::remove_missing_event_id(signed!(who()), (a, b)) };
	sx::check(r.is_ok() == root, "only root clears skipped messages");
	let inr = root && a <= q && q <= b;
	sx::check(in_missed(q) == (was && !inr), "exactly the range is cleared");
	sx::check(open(q) == (o && !(was && inr)) && lists_ok(), "the others stay acceptable");
	sx::reach("done");
}
/// A root origin, a signed one or none.
fn by(k: u64) -> <T as frame_system::Config>::RuntimeOrigin {
	match k {
		0 => frame_system::RawOrigin::Root.into(),
		1 => frame_system::RawOrigin::None.into(),
		_ => signed!(acc(k as u8 + 4)),
	}
}

// ---------------------------------------------------------------- challenges, votes and bonds
fn money() {
	Ledger::create(1, u128::MAX >> 1);
	CBond::put(sx::u128() >> 8);
	RBond::put(sx::u128() >> 8);
	for i in 5..8 {
		Ledger::set(1, &acc(i), sx::u128() >> 8);
	}
}
fn hold(w: &Acc, x: u128) {
	Held::insert(1, w, Held::get(1, w) + x);
}
fn total() -> u128 {
	(5..8).map(|i| Ledger::bal(1, &acc(i)) + Ledger::held(1, &acc(i))).sum()
}
#[no_mangle]
pub extern "C" fn h_challenge() {
	money();
	let cs = claims(2);
	let id = sx::u64();
	let w = who();
	let n0 = PendingClaimChallenges::<T>::get().len();
	let st = PendingClaimStatus::<T>::get(id);
	let (b0, h0) = (Ledger::bal(1, &w), Ledger::held(1, &w));
	let q = sx::u64();
	let (pq, sq, cq) = (PendingEventClaims::<T>::get(q), PendingClaimStatus::<T>::get(q), ChallengerAccount::<T>::get(q));
	let r = with_layer(|| Ethy::submit_challenge(signed!(w.clone()), id));
	if r.is_ok() {
		sx::reach("challenged");
		sx::check(st == Some(EventClaimStatus::Pending), "only a pending claim can be challenged");
		sx::check(PendingClaimStatus::<T>::get(id) == Some(EventClaimStatus::Challenged), "the claim is challenged");
		sx::check(ChallengerAccount::<T>::get(id) == Some((w.clone(), CBond::get())), "the challenger is recorded");
		sx::check(Ledger::bal(1, &w) + CBond::get() == b0 && Ledger::held(1, &w) == h0 + CBond::get(), "the challenger's bond is held");
		let l = PendingClaimChallenges::<T>::get();
		sx::check(l.len() == n0 + 1 && l[n0] == id, "validators are asked");
	} else {
		sx::reach("refused");
		sx::check(Ledger::bal(1, &w) == b0 && Ledger::held(1, &w) == h0, "no bond is taken");
		sx::check(PendingClaimChallenges::<T>::get().len() == n0, "no challenge is recorded");
		sx::check(!(st == Some(EventClaimStatus::Pending) && b0 >= CBond::get() && n0 < MaxChal::get() as usize), "whoever can pay the bond can challenge a pending claim");
	}
	if q != id || r.is_err() {
		sx::check(PendingEventClaims::<T>::get(q) == pq && PendingClaimStatus::<T>::get(q) == sq && ChallengerAccount::<T>::get(q) == cq, "other claims are unaffected");
	} else {
		sx::check(PendingEventClaims::<T>::get(q) == pq, "the claim itself is unchanged");
	}
	let _ = cs;
}
/// floor(100 k / n) >= t, the share of votes counted in whole percent
fn share(k: u32, n: u32, t: u8) -> bool {
	k * 100 >= n * t as u32
}
fn vote_of(k: u64) -> EventClaimResult {
	[EventClaimResult::Valid, EventClaimResult::UnexpectedData, EventClaimResult::DataProviderErr][k as usize].clone()
}
/// One more vote on a challenged claim. `yes`, `no`: votes so far.
fn vote(n: u32, t: u8, yes: u32, no: u32, idx: u32, has_relayer: bool) {
	money();
	NVals::put(n);
	Thr::put(t);
	NotaryKeys::<T>::put(wb((0..n as u8).map(key).collect()));
	let left = n - yes - no;
	sx::assume(!share(yes, n, t) && share(yes + left, n, t));
	let id = 40u64;
	let c = claim(0);
	PendingEventClaims::<T>::insert(id, c.clone());
	PendingClaimStatus::<T>::insert(id, EventClaimStatus::Challenged);
	// another claim, challenged too
	PendingEventClaims::<T>::insert(41, claim(1));
	PendingClaimStatus::<T>::insert(41, EventClaimStatus::Challenged);
	EventNotarizations::<T>::insert(41, key(0), EventClaimResult::Valid);
	let ch = acc(6 + sx::choose(2) as u8);
	let cb = sx::u128() >> 8;
	let ob = sx::u128() >> 8;
	ChallengerAccount::<T>::insert(id, (ch.clone(), cb));
	ChallengerAccount::<T>::insert(41, (acc(5), ob));
	PendingClaimChallenges::<T>::put(BoundedVec::truncate_from(vec![id, 41]));
	MessagesValidAt::<T>::insert(DUE, wb(vec![id, 41]));
	hold(&ch, cb);
	hold(&acc(5), ob);
	let rb = sx::u128() >> 8;
	if has_relayer {
		Relayer::<T>::put(relayer());
		RelayerPaidBond::<T>::insert(relayer(), rb);
		hold(&relayer(), rb);
	}
	let mut k = 0;
	for i in 0..n {
		if i != idx && k < yes + no {
			EventNotarizations::<T>::insert(id, key(i as u8), if k < yes { EventClaimResult::Valid } else { EventClaimResult::UnexpectedData });
			k += 1;
		}
	}
	let tot = total();
	let (cbal, chld, rbal, rhld) = (Ledger::bal(1, &ch), Ledger::held(1, &ch), Ledger::bal(1, &relayer()), Ledger::held(1, &relayer()));
	let res = vote_of(sx::choose(3));
	let yea = res == EventClaimResult::Valid;
	let payload = NotarizationPayload::Event { event_claim_id: id, authority_index: idx as u16, result: res };
	let r = with_layer(|| Ethy::submit_notarization(frame_system::RawOrigin::None.into(), payload, sig(0)));
	sx::check(r.is_ok(), "an active notary's vote is counted");
	let yes = yes + yea as u32;
	let left = left - 1;
	let st = PendingClaimStatus::<T>::get(id);
	let listed = PendingClaimChallenges::<T>::get().contains(&id);
	let votes = EventNotarizations::<T>::iter_prefix(id).count() as u32;
	if share(yes, n, t) {
		sx::reach("valid");
		sx::check(st == Some(EventClaimStatus::ProvenValid) && PendingEventClaims::<T>::get(id) == Some(c), "a claim the notaries confirm goes ahead");
		sx::check(!listed && votes == 0 && !ChallengerAccount::<T>::contains_key(id), "the challenge is over");
		sx::check(!InvalidClaims::<T>::contains_key(id), "a confirmed claim is not invalid");
		if has_relayer {
			if !same(&ch, &relayer()) {
				sx::check(Ledger::held(1, &ch) == chld - cb && Ledger::bal(1, &ch) == cbal && Ledger::bal(1, &relayer()) == rbal + cb && Ledger::held(1, &relayer()) == rhld, "a wrong challenger pays his bond to the relayer");
			}
			sx::check(Relayer::<T>::get() == Some(relayer()) && RelayerPaidBond::<T>::get(relayer()) == rb, "the relayer stays");
		} else {
			sx::check(Ledger::held(1, &ch) == chld - cb && Ledger::bal(1, &ch) == cbal + cb, "with no relayer to pay, the challenger's bond is returned");
		}
	} else if !share(yes + left, n, t) {
		sx::reach("invalid");
		sx::check(st.is_none() && !PendingEventClaims::<T>::contains_key(id), "a claim the notaries reject is dropped");
		sx::check(InvalidClaims::<T>::contains_key(id), "a dropped claim is skipped when its block comes");
		sx::check(!listed && votes == 0 && !ChallengerAccount::<T>::contains_key(id), "the challenge is over");
		let won = if has_relayer { rb } else { 0 };
		if !same(&ch, &relayer()) {
			sx::check(Ledger::held(1, &ch) == chld - cb && Ledger::bal(1, &ch) == cbal + cb + won, "a right challenger gets his bond back and the relayer's");
			sx::check(Ledger::held(1, &relayer()) == rhld - won && Ledger::bal(1, &relayer()) == rbal, "the relayer pays");
		}
		sx::check(Relayer::<T>::get().is_none() && RelayerPaidBond::<T>::get(relayer()) == 0, "the relayer is removed");
	} else {
		sx::reach("open");
		sx::check(st == Some(EventClaimStatus::Challenged) && PendingEventClaims::<T>::get(id) == Some(c) && listed, "an undecided claim waits");
		sx::check(left > 0, "a claim is decided once everyone has voted");
		sx::check(ChallengerAccount::<T>::get(id) == Some((ch.clone(), cb)) && Ledger::held(1, &ch) == chld && Ledger::bal(1, &ch) == cbal, "the bond stays held");
		sx::check(votes == n - left, "the vote is recorded once");
	}
	sx::check(total() == tot, "bonds are moved, not created");
	sx::check(Ledger::held(1, &acc(5)) == ob && ChallengerAccount::<T>::get(41) == Some((acc(5), ob)) && PendingClaimStatus::<T>::get(41) == Some(EventClaimStatus::Challenged) && PendingEventClaims::<T>::contains_key(41) && PendingClaimChallenges::<T>::get().contains(&41) && EventNotarizations::<T>::contains_key(41, key(0)), "other challenges are unaffected");
}
fn sig(k: u8) -> AuthoritySignature {
	sp_core::ecdsa::Signature([k; 65]).into()
}
fn votes(n: u32, t: u8) {
	let yes = sx::choose(n as u64) as u32;
	let no = sx::choose((n - yes) as u64) as u32;
	let idx = if n > 8 { 0 } else { sx::choose(n as u64) as u32 };
	vote(n, t, yes, no, idx, sx::bool())
}
#[no_mangle]
pub extern "C" fn h_vote_1() {
	votes(1, 66)
}
#[no_mangle]
pub extern "C" fn h_vote_3() {
	votes(3, 66)
}
#[no_mangle]
pub extern "C" fn h_vote_5() {
	let t = [51, 66, 75, 100][sx::choose(4) as usize];
	votes(5, t)
}
/// The last vote of a large set decides.
#[no_mangle]
pub extern "C" fn h_vote_last() {
	let n = [23u32, 26, 29][sx::choose(3) as usize];
	let lo = n * 66 / 100 - 2;
	let yes = lo + sx::choose(5) as u32;
	vote(n, 66, yes, n - 1 - yes, 0, true)
}
/// A vote on a claim not under challenge, or by no notary, or not sent by the node, is refused.
#[no_mangle]
pub extern "C" fn h_vote_refused() {
	money();
	NVals::put(3);
	Thr::put(66);
	NotaryKeys::<T>::put(wb((0..3).map(key).collect()));
	let id = 40u64;
	PendingEventClaims::<T>::insert(id, claim(0));
	let st = sx::choose(4) as u8;
	if st < 3 {
		PendingClaimStatus::<T>::insert(id, status(st));
	}
	let idx = sx::u16();
	let k = sx::choose(3);
	let payload = NotarizationPayload::Event { event_claim_id: id, authority_index: idx, result: vote_of(sx::choose(3)) };
	let r = with_layer(|| Ethy::submit_notarization(by(k), payload, sig(0)));
	if r.is_ok() {
		sx::reach("ok");
		sx::check(idx < 3 && st == 1 && k == 1, "votes count only for a challenged claim, from an active notary");
		sx::check(EventNotarizations::<T>::contains_key(id, key(idx as u8)), "the vote is the notary's");
	} else {
		sx::reach("refused");
		sx::check(EventNotarizations::<T>::iter_prefix(id).count() == 0 && PendingEventClaims::<T>::contains_key(id), "a refused vote has no effect");
	}
}
/// Which notarizations a node accepts: signed by the notary at that index, once, and nothing else.
#[no_mangle]
pub extern "C" fn h_validate() {
	NotaryKeys::<T>::put(wb((0..3).map(key).collect()));
	let idx = sx::u16();
	let id = sx::u64();
	let s: AuthoritySignature = sp_core::ecdsa::Signature(sx::bytes()).into();
	let kind = sx::bool();
	let payload = if kind {
		NotarizationPayload::Call { call_id: id, authority_index: idx, result: CheckedEthCallResult::Ok(sx::bytes(), sx::u64(), sx::u64()) }
	} else {
		NotarizationPayload::Event { event_claim_id: id, authority_index: idx, result: vote_of(sx::choose(3)) }
	};
	let voted = idx < 3 && sx::bool();
	if voted {
		if kind {
			EthCallNotarizations::<T>::insert(id, key(idx as u8), CheckedEthCallResult::ReturnDataEmpty);
		} else {
			EventNotarizations::<T>::insert(id, key(idx as u8), EventClaimResult::Valid);
		}
	}
	let call = Call::<T>::submit_notarization { payload: payload.clone(), signature: s.clone() };
	let r = <Ethy as frame_support::unsigned::ValidateUnsigned>::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &call);
	if idx < 3 {
		let good = vstub::io::sig_verify(&payload.encode(), key(idx as u8).as_ref(), s.as_ref());
		sx::check(r.is_ok() == (good && !voted), "a vote is accepted iff the notary it names signed it and has not voted yet");
		if r.is_ok() {
			sx::reach("accepted");
		}
	} else {
		sx::check(r.is_err(), "no vote from outside the notary set");
	}
	let other = match sx::choose(3) {
		0 => Call::<T>::finalise_authorities_change { next_notary_keys: wb(vec![key(9)]) },
		1 => Call::<T>::set_bridge_paused { paused: sx::bool() },
		_ => Call::<T>::submit_event { tx_hash: H256::zero(), event: vec![] },
	};
	sx::check(<Ethy as frame_support::unsigned::ValidateUnsigned>::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &other).is_err(), "nothing else is accepted unsigned");
	sx::reach("done");
}
/// Relayer bonds: backed by holds, and locked while the relayer is active.
#[no_mangle]
pub extern "C" fn h_bond() {
	money();
	sx::assume(RBond::get() > 0);
	let w = who();
	let paid = [0, sx::u128() >> 8][sx::choose(2) as usize];
	if paid > 0 {
		RelayerPaidBond::<T>::insert(w.clone(), paid);
	}
	let extra = sx::u128() >> 8;
	hold(&w, paid + extra);
	let active = paid > 0 && sx::bool();
	if active {
		Relayer::<T>::put(w.clone());
	}
	let o = acc(5);
	let op = sx::u128() >> 8;
	RelayerPaidBond::<T>::insert(o.clone(), op);
	hold(&o, op);
	let (b0, h0, tot) = (Ledger::bal(1, &w), Ledger::held(1, &w), total());
	let op_k = sx::choose(3);
	let k = sx::choose(3);
	let r = with_layer(|| match op_k {
		0 => Ethy::deposit_relayer_bond(signed!(w.clone())),
		1 => Ethy::withdraw_relayer_bond(signed!(w.clone())),
		_ => Ethy::set_relayer(by(k), w.clone()),
	});
	let p = RelayerPaidBond::<T>::get(w.clone());
	let (b, h) = (Ledger::bal(1, &w), Ledger::held(1, &w));
	sx::check(h - p == extra, "a relayer's bond is exactly what is held for it");
	sx::check(b + h == b0 + h0 && total() == tot, "bonds are moved, not created");
	sx::check(RelayerPaidBond::<T>::get(o.clone()) == op && Ledger::held(1, &o) == op, "other relayers are unaffected");
	if let Some(x) = Relayer::<T>::get() {
		sx::check(same(&x, &w) && p > 0, "the active relayer has a bond");
		if !active {
			sx::reach("set");
			sx::check(op_k == 2 && k == 0 && p >= RBond::get(), "root makes someone with the full bond the relayer");
		}
	}
	match op_k {
		0 => sx::check(r.is_ok() == (paid == 0 && b0 >= RBond::get()) && (!r.is_ok() || p == RBond::get()), "anyone without a bond can deposit exactly the required one"),
		1 => sx::check(r.is_ok() == (paid > 0 && !active) && (!r.is_ok() || (p == 0 && b == b0 + paid)), "whoever is not the active relayer can take the whole bond back"),
		_ => sx::check(r.is_ok() == (k == 0 && paid >= RBond::get()), "root can make anyone with the full bond the relayer"),
	}
	if r.is_ok() {
		sx::reach("ok");
	} else {
		sx::reach("err");
		sx::check(p == paid && b == b0, "a refusal changes nothing");
	}
}

// ---------------------------------------------------------------- the node's off-chain worker
const SELECTOR: [u8; 32] = [
	0x0f, 0x88, 0x85, 0xc9, 0x65, 0x4c, 0x59, 0x01, 0xd6, 0x1d, 0x2e, 0xae, 0x1f, 0xa5, 0xd1, 0x1a, 0x67, 0xf9, 0xb8, 0xfc, 0xa7, 0x71, 0x46, 0xd5, 0x10, 0x9b, 0xc7, 0xbe, 0x00, 0xf4, 0x47,
	0x2a,
];
fn submitted() -> Vec<(NotarizationPayload, AuthoritySignature)> {
	let v = unsafe { &*core::ptr::addr_of!(vstub::system::offchain::SUBMITTED) };
	v.iter()
		.map(|p| {
			let c = unsafe { &*(*p as *const RtCall) };
			match &c.0 {
				Some(Call::submit_notarization { payload, signature }) => (payload.clone(), signature.clone()),
				_ => panic!("unexpected call"),
			}
		})
		.collect()
}
fn node() {
	NVals::put(2);
	Thr::put(66);
	NotaryKeys::<T>::put(wb(vec![key(0), key(1)]));
	let mut k = [1u8; 33];
	k[0] = 2;
	let mut x = [9u8; 33];
	x[0] = 2;
	unsafe { vstub::io::KEYS = vec![x, k] };
}
fn rpc<A>(x: A) -> Result<Option<A>, BridgeRpcError> {
	match sx::choose(3) {
		0 => Ok(Some(x)),
		1 => Ok(None),
		_ => Err(BridgeRpcError::HttpFetch),
	}
}
/// A node's vote on a challenged message.
fn notarize(nlogs: usize) {
	node();
	let id = sx::u64();
	let c = claim(0);
	let contract = H160(sx::bytes());
	ContractAddress::<T>::put(contract);
	PendingEventClaims::<T>::insert(id, c.clone());
	PendingClaimStatus::<T>::insert(id, EventClaimStatus::Challenged);
	PendingClaimChallenges::<T>::put(BoundedVec::truncate_from(vec![id]));
	let conf = sx::u64();
	EventBlockConfirmations::<T>::put(conf);
	let right = ethabi::encode(&[Token::Uint(id.into()), Token::Address(c.source), Token::Address(c.destination), Token::Bytes(c.data.to_vec())]);
	let mut other = right.clone();
	other[31] ^= 1;
	let mut logs = vec![];
	let mut found = false;
	for _ in 0..nlogs {
		// which part of the log, if any, is not what is claimed
		let k = sx::choose(5);
		let mut l = Log { address: contract, topics: vec![H256([7; 32]), H256(SELECTOR)], data: right.clone(), transaction_hash: Some(c.tx_hash), ..Default::default() };
		match k {
			0 => l.address = { let a = H160(sx::bytes()); sx::assume(a != contract); a },
			1 => l.topics = vec![H256([7; 32])],
			2 => l.data = other.clone(),
			3 => l.transaction_hash = None,
			_ => found = true,
		}
		logs.push(l);
	}
	let st = sx::choose(3);
	let to = [Some(c.source), Some(H160(sx::bytes())), None][sx::choose(3) as usize];
	let n = sx::u64();
	let rec = TransactionReceipt { status: [None, Some(0.into()), Some(1.into())][st as usize], to, logs, block_number: n.into(), ..Default::default() };
	let head = sx::u64();
	let blk = EthBlock { number: Some(head.into()), ..Default::default() };
	let (r, h) = (rpc(rec), rpc(blk));
	let seen = matches!(r, Ok(Some(_))) && matches!(h, Ok(Some(_)));
	unsafe {
		RECEIPT = Some(r);
		HEAD = Some(h);
	}
	let paused = sx::bool();
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: paused, authorities_change: false });
	let done = sx::bool();
	if done {
		EventNotarizations::<T>::insert(id, key(1), EventClaimResult::Valid);
	}
	let w0 = writes();
	Ethy::offchain_worker(DUE);
	sx::check(writes() == w0, "voting off chain changes no state");
	let s = submitted();
	sx::check(s.len() <= 1, "one vote at a time");
	if paused || done {
		sx::check(s.is_empty(), "no vote while the bridge is paused, nor twice");
	}
	if let [(p, sg)] = s.as_slice() {
		sx::check(vstub::io::sig_verify(&p.encode(), key(1).as_ref(), sg.as_ref()), "the vote is signed by the notary");
		match p {
			NotarizationPayload::Event { event_claim_id, authority_index, result } => {
				sx::check(*event_claim_id == id && *authority_index == 1, "the vote is on the challenged message, by the node's notary");
				let ok = seen && st == 2 && to == Some(c.source) && found && n <= head && head - n >= conf;
				let ok = ok || (seen && st == 2 && to == Some(c.source) && found && conf == 0);
				sx::check((*result == EventClaimResult::Valid) == ok, "a node confirms a message iff Ethereum shows it, deep enough");
				if ok {
					sx::reach("valid");
				} else {
					sx::reach("invalid");
				}
			},
			_ => sx::check(false, "the vote is on a message"),
		}
	} else {
		sx::reach("none");
	}
}
#[no_mangle]
pub extern "C" fn h_notarize_1() {
	notarize(1)
}
#[no_mangle]
pub extern "C" fn h_notarize_2() {
	notarize(2)
}
/// A node's answer to an eth_call request.
#[no_mangle]
pub extern "C" fn h_ecall_node() {
	node();
	let id = sx::u64();
	let (ts, tryb, look, chk) = (sx::u64(), sx::u64(), sx::u64(), sx::u64());
	let target = H160(sx::bytes());
	let input = sx::vec(2);
	EthCallRequestInfo::<T>::insert(id, CheckedEthCallRequest { input: BoundedVec::truncate_from(input.clone()), target, timestamp: ts, max_block_look_behind: look, try_block_number: tryb, check_timestamp: chk });
	EthCallRequests::<T>::put(wb(vec![id]));
	let (head, hts, ots) = (sx::u64(), sx::u64(), sx::u64());
	let hn = if sx::bool() { Some(head.into()) } else { None };
	let (h, o) = (rpc(EthBlock { number: hn, timestamp: hts.into(), ..Default::default() }), rpc(EthBlock { number: Some(tryb.into()), timestamp: ots.into(), ..Default::default() }));
	let n = [0usize, 31, 32, 33][sx::choose(4) as usize];
	let d = sx::vec(n);
	let ret = if sx::bool() { Ok(d.clone()) } else { Err(BridgeRpcError::HttpFetch) };
	let hok = matches!(h, Ok(Some(_))) && hn.is_some();
	let ook = matches!(o, Ok(Some(_)));
	unsafe {
		HEAD = Some(h);
		OLDER = Some(o);
		TRYB = tryb;
		RETURN = Some(ret.clone());
	}
	Ethy::offchain_worker(DUE);
	let s = submitted();
	if let [(p, sg)] = s.as_slice() {
		sx::check(vstub::io::sig_verify(&p.encode(), key(1).as_ref(), sg.as_ref()), "the answer is signed by the notary");
		let NotarizationPayload::Call { call_id, authority_index, result } = p else { panic!() };
		sx::check(*call_id == id && *authority_index == 1, "the answer is to the request, by the node's notary");
		let extra = NOW.saturating_sub(chk) / 12;
		let near = tryb < head && tryb >= head.saturating_sub(look).saturating_sub(extra);
		let fine = hok && hts >= ts && hts != u64::MAX && head != 0 && head != u64::MAX;
		let calls = unsafe { (*core::ptr::addr_of!(CALLED)).clone() };
		for (t, i, b) in &calls {
			sx::check(*t == target && eqb(i, &input), "the call is the one requested");
			sx::check(*b == if near { tryb } else { head }, "the call runs at the block named if recent, else at the latest");
		}
		match result {
			CheckedEthCallResult::Ok(r, b, t) => {
				sx::reach("ok");
				sx::check(fine && ret.is_ok() && eqb(r, &d) && d.len() == 32 && calls.len() == 1, "the answer is what the call returned");
				sx::check(*b == (if near { tryb } else { head }) && *t == (if near { ots } else { hts }), "the answer names the block it is from");
			},
			CheckedEthCallResult::ReturnDataEmpty => sx::check(ret.is_ok() && d.is_empty(), "empty data"),
			CheckedEthCallResult::ReturnDataExceedsLimit => sx::check(ret.is_ok() && d.len() != 32 && !d.is_empty(), "data of another size"),
			_ => {
				sx::reach("failed");
				sx::check(!(fine && (ook || !near) && ret.is_ok()), "an answer that can be had is given");
			},
		}
	} else {
		sx::check(s.is_empty(), "one answer at a time");
		sx::reach("none");
	}
}

// ---------------------------------------------------------------- eth_call requests
fn any_req() -> CheckedEthCallRequest<MaxData> {
	CheckedEthCallRequest { input: BoundedVec::truncate_from(vec![1]), target: H160([1; 20]), timestamp: 1, max_block_look_behind: 2, try_block_number: 3, check_timestamp: 4 }
}
/// A request gets a fresh id and is queued as asked.
#[no_mangle]
pub extern "C" fn h_ecall() {
	let n = sx::u64();
	sx::assume(n < u64::MAX - 2);
	NextEthCallId::<T>::put(n);
	let old = sx::u64();
	sx::assume(old < n);
	EthCallRequests::<T>::put(wb(vec![old]));
	EthCallRequestInfo::<T>::insert(old, any_req());
	for k in 0..2u64 {
		let (t, i) = (H160(sx::bytes()), { let n = sx::choose(3) as usize; sx::vec(n) });
		let (a, b, c) = (sx::u64(), sx::u64(), sx::u64());
		let id = Ethy::checked_eth_call(&t, &i, a, b, c);
		sx::check(id == n + k, "ids are never used twice");
		let r = EthCallRequestInfo::<T>::get(id).unwrap();
		sx::check(r.target == t && eqb(&r.input, &i) && r.timestamp == a && r.try_block_number == b && r.max_block_look_behind == c && r.check_timestamp == NOW, "the request is recorded as asked");
	}
	let v = EthCallRequests::<T>::get().into_inner();
	sx::check(v == vec![old, n, n + 1], "requests are queued in order");
	sx::check(EthCallRequestInfo::<T>::contains_key(old), "earlier requests stay");
	sx::reach("done");
}
fn answer(k: u64, b: u64, t: u64) -> CheckedEthCallResult {
	match k {
		0 => CheckedEthCallResult::Ok([1; 32], b, t),
		1 => CheckedEthCallResult::Ok([2; 32], b, t),
		2 => CheckedEthCallResult::ReturnDataEmpty,
		_ => CheckedEthCallResult::DataProviderErr,
	}
}
/// One more answer to a request. `have`: answers of each kind so far.
fn ecall_vote(n: u32, t: u8, kinds: u64) {
	NVals::put(n);
	Thr::put(t);
	NotaryKeys::<T>::put(wb((0..n as u8).map(key).collect()));
	let id = 40u64;
	EthCallRequests::<T>::put(wb(vec![39, id]));
	for x in [39, id] {
		EthCallRequestInfo::<T>::insert(x, any_req());
	}
	EthCallNotarizations::<T>::insert(39, key(0), answer(0, 5, 6));
	let (b, ts) = (5, 6);
	let mut cnt = [0u32; 4];
	let voted = sx::choose(n as u64) as u32;
	let mut agg = std::collections::BTreeMap::new();
	for i in 0..voted {
		let k = sx::choose(kinds);
		cnt[k as usize] += 1;
		let a = answer(k, b, ts);
		EthCallNotarizations::<T>::insert(id, key(i as u8 + 1), a);
		*agg.entry(a).or_insert(0) += 1;
	}
	let left = n - voted;
	// the request is still open
	sx::assume(cnt.iter().all(|c| !share(*c, n, t)));
	sx::assume(voted == 0 || cnt.iter().any(|c| *c > 0 && share(*c + left, n, t)));
	if voted > 0 {
		EthCallNotarizationsAggregated::<T>::insert(id, agg);
	}
	let k = sx::choose(kinds);
	cnt[k as usize] += 1;
	let left = left - 1;
	let p = NotarizationPayload::Call { call_id: id, authority_index: 0, result: answer(k, b, ts) };
	let r = with_layer(|| Ethy::submit_notarization(frame_system::RawOrigin::None.into(), p, sig(0)));
	sx::check(r.is_ok(), "an active notary's answer is counted");
	let (ok, bad) = (Done::get(), Failed::get());
	let open = EthCallRequestInfo::<T>::contains_key(id);
	let votes = EthCallNotarizations::<T>::iter_prefix(id).count() as u32;
	if let Some(w) = (0..4).find(|w| share(cnt[*w], n, t)) {
		sx::reach("agreed");
		if w < 2 {
			sx::check(bad.is_empty() && ok == vec![(id, [w as u8 + 1; 32], b, ts)], "the answer enough notaries gave is delivered, once");
		} else {
			sx::check(ok.is_empty() && bad == vec![id], "an agreed failure is reported, once");
		}
		sx::check(!open, "an answered request is closed");
	} else if !cnt.iter().any(|c| *c > 0 && share(*c + left, n, t)) {
		sx::reach("split");
		sx::check(ok.is_empty(), "an answer the notaries do not agree on is never delivered");
		sx::check(bad == vec![id], "a request that cannot be agreed on fails, once");
		sx::check(!open, "a failed request is closed");
	} else {
		sx::reach("open");
		sx::check(ok.is_empty() && bad.is_empty() && open, "an open request waits");
		sx::check(EthCallRequests::<T>::get().into_inner() == vec![39, id] && votes == n - left, "the answer is recorded");
		let agg = EthCallNotarizationsAggregated::<T>::get(id).unwrap();
		sx::check((0..4).all(|w| agg.get(&answer(w as u64, b, ts)).copied().unwrap_or(0) == cnt[w]), "answers are counted once each");
	}
	if !open {
		sx::check(EthCallRequests::<T>::get().into_inner() == vec![39] && votes == 0 && !EthCallNotarizationsAggregated::<T>::contains_key(id), "nothing is left of it");
	}
	sx::check(EthCallRequestInfo::<T>::contains_key(39) && EthCallNotarizations::<T>::contains_key(39, key(0)), "other requests are unaffected");
}
#[no_mangle]
pub extern "C" fn h_ecall_vote_1() {
	ecall_vote(1, 66, 4)
}
#[no_mangle]
pub extern "C" fn h_ecall_vote_3() {
	ecall_vote(3, 66, 4)
}
#[no_mangle]
pub extern "C" fn h_ecall_vote_4() {
	let t = [51, 66, 75, 100][sx::choose(4) as usize];
	ecall_vote(4, t, 3)
}
#[no_mangle]
pub extern "C" fn h_ecall_vote_6() {
	ecall_vote(6, 66, 2)
}
/// Answers to no open request, or by no notary, are refused.
#[no_mangle]
pub extern "C" fn h_ecall_refused() {
	NVals::put(3);
	Thr::put(66);
	NotaryKeys::<T>::put(wb((0..3).map(key).collect()));
	let o = sx::bool();
	if o {
		EthCallRequestInfo::<T>::insert(40, any_req());
		EthCallRequests::<T>::put(wb(vec![40]));
	}
	let idx = sx::u16();
	let k = sx::choose(3);
	let p = NotarizationPayload::Call { call_id: 40, authority_index: idx, result: answer(sx::choose(4), 1, 2) };
	let r = with_layer(|| Ethy::submit_notarization(by(k), p, sig(0)));
	sx::check(r.is_ok() == (o && idx < 3 && k == 1), "answers count only for an open request, from an active notary");
	if r.is_err() {
		sx::check(EthCallNotarizations::<T>::iter_prefix(40).count() == 0 && Done::get().is_empty() && Failed::get().is_empty(), "a refused answer has no effect");
	}
	sx::reach("done");
}

// ---------------------------------------------------------------- proofs for Ethereum and the XRPL
fn digests() -> &'static Vec<DigestItem> {
	unsafe { &*core::ptr::addr_of!(vstub::system::DIGESTS) }
}
/// Is the n-th digest a request to sign `data` for `chain` under the proof id?
fn asks(n: usize, chain: EthyChainId, id: u64, data: &[u8]) -> bool {
	let want = ConsensusLog::<Acc>::OpaqueSigningRequest { chain_id: chain, event_proof_id: id, data: data.to_vec() }.encode();
	match &digests()[n] {
		DigestItem::Consensus(e, d) => *e == *b"ETHY" && eqb(d, &want),
		_ => false,
	}
}
fn event_hash(s: &H160, d: &H160, m: &[u8], set: u64, id: u64) -> Vec<u8> {
	let e = ethabi::encode(&[Token::Address(*s), Token::Address(*d), Token::Bytes(m.to_vec()), Token::Uint(set.into()), Token::Uint(id.into())]);
	vstub::io::hashing::keccak_256(&e).to_vec()
}
fn pause() -> bool {
	let (a, b) = (sx::bool(), sx::bool());
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: a, authorities_change: b });
	a || b
}
/// Two messages are sent out.
#[no_mangle]
pub extern "C" fn h_send() {
	let n = sx::u64();
	sx::assume(n < u64::MAX - 4);
	NextEventProofId::<T>::put(n);
	let set = sx::u64();
	NotarySetId::<T>::put(set);
	NotaryKeys::<T>::put(wb(vec![key(0), key(1)]));
	Thr::put(66);
	let p = pause();
	for k in 0..2u64 {
		let (s, d) = (H160(sx::bytes()), H160(sx::bytes()));
		let eth = sx::bool();
		let len = [0, 2, 320, 321][sx::choose(4) as usize];
		let m = if len > 2 { vec![3; len] } else { sx::vec(len) };
		let nd = digests().len();
		let r = with_layer(|| if eth { <Ethy as EthereumBridge>::send_event(&s, &d, &m) } else { <Ethy as XrplBridgeToEthyAdapter<Id>>::sign_xrpl_transaction(&m) });
		sx::check(r.is_ok() == (len <= 320), "any message within the limit is accepted");
		let id = NextEventProofId::<T>::get();
		if r.is_err() {
			sx::check(digests().len() == nd, "a refused message is not signed");
			sx::reach("refused");
			break;
		}
		sx::check(r == Ok(n + k) && id == n + k + 1, "every message gets the next proof id");
		if p {
			sx::reach("delayed");
			sx::check(digests().len() == nd, "no proof while the bridge is paused");
			let want = if eth {
				EthySigningRequest::Ethereum(EthereumEventInfo { source: s, destination: d, message: BoundedVec::truncate_from(m), validator_set_id: set, event_proof_id: n + k })
			} else {
				EthySigningRequest::XrplTx(BoundedVec::truncate_from(m))
			};
			sx::check(PendingEventProofs::<T>::get(n + k) == Some(want), "a delayed message is kept as it is");
		} else {
			sx::reach("sent");
			sx::check(digests().len() == nd + 1 && !PendingEventProofs::<T>::contains_key(n + k), "one proof is requested");
			sx::check(if eth { asks(nd, EthyChainId::Ethereum, n + k, &event_hash(&s, &d, &m, set, n + k)) } else { asks(nd, EthyChainId::Xrpl, n + k, &m) }, "the proof is of the message, under its id and the current validator set");
		}
	}
}
/// Delayed messages, once the bridge is back.
#[no_mangle]
pub extern "C" fn h_idle() {
	let set = sx::u64();
	NotarySetId::<T>::put(set);
	let n = sx::choose(4) as u64;
	let mut v = vec![];
	for k in 0..n {
		let old = sx::u64();
		sx::assume(old <= set);
		let m = sx::vec(2);
		let (s, d) = (H160(sx::bytes()), H160(sx::bytes()));
		let r = if k == 1 {
			EthySigningRequest::XrplTx(BoundedVec::truncate_from(m.clone()))
		} else {
			EthySigningRequest::Ethereum(EthereumEventInfo { source: s, destination: d, message: BoundedVec::truncate_from(m.clone()), validator_set_id: old, event_proof_id: k })
		};
		PendingEventProofs::<T>::insert(k, r.clone());
		v.push((k, s, d, m, r));
	}
	let p = pause();
	let lim = sx::choose(5) as u8;
	DelayedEventProofsPerBlock::<T>::put(lim);
	let w = sx::u64();
	Ethy::on_idle(DUE, Weight::from_parts(w, 0));
	let sent: Vec<u64> = v.iter().filter(|x| !PendingEventProofs::<T>::contains_key(x.0)).map(|x| x.0).collect();
	sx::check(digests().len() == sent.len(), "each message leaves the queue with exactly one proof request");
	sx::check(sent.len() <= lim as usize && (!p || sent.is_empty()), "within the limit, and never while paused");
	if !p && w >= 1 << 40 {
		sx::check(sent.len() as u64 == (lim as u64).min(n), "with weight to spare the queue moves on");
		sx::reach("moves");
	}
	for (k, s, d, m, r) in &v {
		if sent.contains(k) {
			sx::reach("sent");
			let c = (0..sent.len()).filter(|i| if *k == 1 { asks(*i, EthyChainId::Xrpl, *k, m) } else { asks(*i, EthyChainId::Ethereum, *k, &event_hash(s, d, m, set, *k)) }).count();
			sx::check(c == 1, "the proof is of the message, under its id and the validator set now active");
		} else {
			sx::reach("waits");
			sx::check(PendingEventProofs::<T>::get(k) == Some(r.clone()), "a waiting message stays as it is");
		}
	}
}
/// Pausing by governance.
#[no_mangle]
pub extern "C" fn h_pause() {
	let (a, b) = (sx::bool(), sx::bool());
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: a, authorities_change: b });
	let (k, x) = (sx::choose(3), sx::bool());
	let r = Ethy::set_bridge_paused(by(k), x);
	sx::check(r.is_ok() == (k == 0), "only root pauses the bridge");
	let now = BridgePaused::<T>::get();
	sx::check(now.authorities_change == b && now.manual_pause == if k == 0 { x } else { a }, "a manual pause is separate from the handover's");
	sx::check(Ethy::bridge_paused() == (now.manual_pause || b), "either pauses the bridge");
	let root = [
		Ethy::set_event_block_confirmations(by(k), sx::u64()).is_ok(),
		Ethy::set_delayed_event_proofs_per_block(by(k), sx::u8()).is_ok(),
		Ethy::set_challenge_period(by(k), sx::u32()).is_ok(),
		Ethy::set_contract_address(by(k), H160(sx::bytes())).is_ok(),
		Ethy::set_xrpl_door_signers(by(k), vec![(key(1), true)]).is_ok(),
	];
	sx::check(root.iter().all(|x| *x == (k == 0)), "only root configures the bridge");
	sx::reach("done");
}

// ---------------------------------------------------------------- handing over to the next validators
fn door(k: &Id) -> bool {
	XrplDoorSigners::<T>::get(k)
}
fn xrpl_keys(v: &[Id]) -> Vec<Id> {
	v.iter().filter(|k| door(k)).take(MaxXrpl::get() as usize).cloned().collect()
}
fn same_keys(a: &[Id], b: &[Id]) -> bool {
	a.len() == b.len() && a.iter().all(|x| b.contains(x))
}
fn keys(n: u64) -> Vec<Id> {
	// distinct keys in some order
	let mut v = vec![];
	for _ in 0..n {
		let k = key(sx::choose(4) as u8);
		sx::assume(!v.contains(&k));
		v.push(k);
	}
	v
}
struct Handover {
	set: u64,
	pid: u64,
	contract: H160,
	cur: Vec<Id>,
	next: Vec<Id>,
	xcur: Vec<Id>,
}
fn handover(nc: u64, nn: u64) -> Handover {
	Thr::put(66);
	let (set, pid) = (sx::u64(), sx::u64());
	sx::assume(set < u64::MAX - 2 && pid < u64::MAX - 2);
	let contract = H160(sx::bytes());
	for i in 0..4u8 {
		if sx::bool() {
			XrplDoorSigners::<T>::insert(key(i), true);
		}
	}
	NotarySetId::<T>::put(set);
	NextEventProofId::<T>::put(pid);
	ContractAddress::<T>::put(contract);
	let (cur, next) = (keys(nc), keys(nn));
	NotaryKeys::<T>::put(wb(cur.clone()));
	NextNotaryKeys::<T>::put(wb(next.clone()));
	let xcur = xrpl_keys(&cur);
	NotaryXrplKeys::<T>::put(wb(xcur.clone()));
	Handover { set, pid, contract, cur, next, xcur }
}
/// The current validators vouch for the next ones.
fn vouched(h: &Handover, n: usize) {
	let addrs = h.next.iter().map(|k| Token::Address(H160(EthyEcdsaToEthereum::convert(k.as_ref())))).collect();
	let msg = ethabi::encode(&[Token::Array(addrs), Token::Uint((h.set + 1).into())]);
	let src: H160 = BridgeId::get().into_account_truncating();
	sx::check(asks(n, EthyChainId::Ethereum, h.pid, &event_hash(&src, &h.contract, &msg, h.set, h.pid)), "the current validators sign the next set for the bridge contract");
	sx::check(NotarySetProofId::<T>::get() == h.pid, "the proof can be found");
	let xn = xrpl_keys(&h.next);
	let s = Signers::get();
	if same_keys(&xn, &h.xcur) {
		sx::reach("xrpl same");
		sx::check(s.is_empty(), "unchanged XRPL signers are not sent again");
	} else {
		sx::reach("xrpl new");
		sx::check(s.len() == 1 && s[0].len() == xn.len() && xn.iter().all(|k| s[0].contains(&(H160(EthyEcdsaToXRPLAccountId::convert(k.as_ref())), 1))), "the XRPL signer list is that of the next set");
	}
	sx::check(BridgePaused::<T>::get().authorities_change, "the bridge is paused for the handover");
	sx::check(NextAuthorityChange::<T>::get().is_none() && AuthoritiesChangedThisEra::<T>::get(), "the handover is announced once");
	sx::check(NotarySetId::<T>::get() == h.set && NotaryKeys::<T>::get().into_inner() == h.cur, "the current validators stay until the handover is complete");
}
fn took_over(h: &Handover, next: &[Id], n: usize) {
	sx::check(NotarySetId::<T>::get() == h.set + 1 && NotaryKeys::<T>::get().into_inner() == next.to_vec(), "the next validators take over, as the next set");
	sx::check(same_keys(&NotaryXrplKeys::<T>::get(), &xrpl_keys(next)), "so do their XRPL signers");
	sx::check(!BridgePaused::<T>::get().authorities_change && !AuthoritiesChangedThisEra::<T>::get(), "the bridge is back");
	let l = next.len() as u32;
	let want = ConsensusLog::<Id>::AuthoritiesChange(ValidatorSet { validators: next.to_vec(), id: h.set + 1, proof_threshold: (l * 66 + 99) / 100 }).encode();
	sx::check(
		match &digests()[n] {
			DigestItem::Consensus(e, d) => *e == *b"ETHY" && eqb(d, &want),
			_ => false,
		},
		"the gadget learns the next set and the signatures it needs",
	);
}
#[no_mangle]
pub extern "C" fn h_handover() {
	let h = handover(2, 1 + sx::choose(2));
	let at = sx::u32();
	let due = sx::bool();
	if due {
		NextAuthorityChange::<T>::put(at);
	} else {
		sx::assume(at != 0);
		if sx::bool() {
			NextAuthorityChange::<T>::put(at.wrapping_add(1));
		}
	}
	let man = false;
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: man, authorities_change: false });
	set_block(at);
	Ethy::on_initialize(at);
	if due {
		sx::reach("due");
		sx::check(digests().len() == 1 && NextEventProofId::<T>::get() == h.pid + 1, "one proof is requested");
		vouched(&h, 0);
	} else {
		sx::reach("not due");
		sx::check(digests().is_empty() && !Ethy::bridge_paused() && Signers::get().is_empty() && NotarySetId::<T>::get() == h.set, "nothing happens in other blocks");
	}
}
/// The last session of an era ends.
#[no_mangle]
pub extern "C" fn h_ending() {
	let h = handover(2, 1 + sx::choose(2));
	let fin = sx::bool();
	IsFinal::put(fin);
	let announced = sx::bool();
	AuthoritiesChangedThisEra::<T>::put(announced);
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: false, authorities_change: announced });
	if !announced && sx::bool() {
		NextAuthorityChange::<T>::put(sx::u32());
	}
	SchedFail::put(sx::bool());
	let now = sx::u32();
	sx::assume(now < u32::MAX - 100);
	set_block(now);
	let key_due = NextAuthorityChange::<T>::get();
	<Ethy as OneSessionHandler<Acc>>::on_before_session_ending();
	if !fin {
		sx::reach("other session");
		sx::check(digests().is_empty() && NotaryKeys::<T>::get().into_inner() == h.cur && Sched::get().is_empty() && NextAuthorityChange::<T>::get() == key_due, "nothing happens before the last session of the era");
		sx::check(BridgePaused::<T>::get().authorities_change == announced, "the bridge stays as it is");
		return;
	}
	if announced {
		sx::reach("announced");
		sx::check(digests().len() == 1, "only the gadget is told");
		took_over(&h, &h.next, 0);
	} else {
		sx::reach("forced");
		sx::check(digests().len() == 1, "one proof is requested");
		vouched(&h, 0);
		let s = Sched::get();
		if !SchedFail::get() {
			sx::check(s.len() == 1 && s[0].0 == now + 75, "the handover is completed after the delay");
			match &s[0].1 .0 {
				Some(Call::finalise_authorities_change { next_notary_keys }) => sx::check(next_notary_keys.clone().into_inner() == h.next, "with the validators announced"),
				_ => sx::check(false, "the handover is completed by the scheduler"),
			}
		}
	}
}
/// The handover is completed: by the scheduler only.
#[no_mangle]
pub extern "C" fn h_finalise() {
	let h = handover(2, 1);
	AuthoritiesChangedThisEra::<T>::put(true);
	let man = sx::bool();
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: man, authorities_change: true });
	let k = sx::choose(3);
	let n = sx::choose(3);
	let next = keys(n);
	let r = with_layer(|| Ethy::finalise_authorities_change(by(k), wb(next.clone())));
	sx::check(r.is_ok() == (k == 1), "nobody can set the validators from outside");
	if r.is_ok() {
		sx::reach("done");
		took_over(&h, &next, 0);
	} else {
		sx::reach("refused");
		sx::check(NotaryKeys::<T>::get().into_inner() == h.cur && NotarySetId::<T>::get() == h.set && digests().is_empty(), "a refusal changes nothing");
	}
	sx::check(BridgePaused::<T>::get().manual_pause == man, "a manual pause stays");
}
/// A new session is planned.
#[no_mangle]
pub extern "C" fn h_session() {
	let h = handover(2, 1);
	let fin = sx::bool();
	IsFinal::put(fin);
	let now = sx::u32();
	sx::assume(now < u32::MAX - 1000);
	set_block(now);
	let old = NextAuthorityChange::<T>::get();
	let q = { let n = sx::choose(3); keys(n) };
	let accs: Vec<Acc> = (0..4).map(acc).collect();
	let (c, n): (Vec<_>, Vec<_>) = (h.cur.iter().cloned().enumerate().map(|(i, k)| (&accs[i], k)).collect(), q.iter().cloned().enumerate().map(|(i, k)| (&accs[i], k)).collect());
	<Ethy as OneSessionHandler<Acc>>::on_new_session(sx::bool(), c.into_iter(), n.into_iter());
	sx::check(NextNotaryKeys::<T>::get().into_inner() == q, "the queued validators are next");
	sx::check(NotaryKeys::<T>::get().into_inner() == h.cur && NotarySetId::<T>::get() == h.set, "the current validators stay");
	sx::check(NextAuthorityChange::<T>::get() == if fin { Some(now + 925) } else { old }, "the handover starts before the last session of the era ends");
	sx::reach(if fin { "final" } else { "other" });
}
/// Root chooses the XRPL signers.
#[no_mangle]
pub extern "C" fn h_door() {
	let h = handover(3, 1);
	let (a, b) = (sx::choose(4) as u8, sx::bool());
	let old: Vec<bool> = (0..4).map(|i| door(&key(i))).collect();
	let r = Ethy::set_xrpl_door_signers(by(0), vec![(key(a), b)]);
	sx::check(r.is_ok(), "root can");
	sx::check((0..4u8).all(|i| door(&key(i)) == if i == a { b } else { old[i as usize] }), "only the named signer changes");
	sx::check(same_keys(&NotaryXrplKeys::<T>::get(), &xrpl_keys(&h.cur)), "the active XRPL signers are the active validators among them");
	let v = <Ethy as XrplBridgeToEthyAdapter<Id>>::xrp_validators();
	sx::check(same_keys(&v, &xrpl_keys(&h.cur)) && <Ethy as XrplBridgeToEthyAdapter<Id>>::validators() == h.cur, "and that is what the XRPL bridge sees");
	let s = Ethy::validator_set();
	sx::check(s.id == h.set && s.validators == h.cur && s.proof_threshold == 2, "the active set and the signatures it needs");
	sx::reach("done");
}
