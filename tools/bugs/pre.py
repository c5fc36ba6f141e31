import re, os
H = "/verif/ws/h"
def pre(crate, stop):
    """the runtime set-up of a harness crate (everything before the line starting with `stop`)"""
    s = open(f"{H}/{crate}/lib.rs").read()
    s = s.replace("#![allow(non_snake_case)]\n", "")
    return s[:s.index("\n" + stop)] + "\n"
DEX = pre("dex", "fn u(") + """
fn pool(a: u32, b: u32, lp: u32, r0: u128, r1: u128) -> Acc {
	let pair = TradingPair::new(a, b);
	LiquidityPool::<T>::insert(pair, (r0, r1));
	TradingPairLPToken::<T>::insert(pair, Some(lp));
	TradingPairStatuses::<T>::insert(pair, TradingPairStatus::Enabled);
	FeeTo::<T>::put(None::<Acc>);
	for x in [a, b, lp] { if !Supply::contains_key(x) { Ledger::create(x, 1u128 << 100); } }
	let p = pair.pool_address();
	Ledger::set(pair.0, &p, r0);
	Ledger::set(pair.1, &p, r1);
	p
}
"""
NFT = pre("nft", "/// Every serial") + """
fn coll(owner: Acc, held: &[(Acc, &[u32])], next: u32) {
	let n: usize = held.iter().map(|x| x.1.len()).sum();
	CollectionInfo::<T>::insert(COL, Info { owner, name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, max_issuance: None, origin_chain: OriginChain::Root, next_serial_number: next, collection_issuance: n as u32, cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
		owned_tokens: bv(&held.iter().map(|(o, s)| TokenOwnership { owner: *o, owned_serials: bv(s) }).collect::<Vec<_>>()) });
}
"""
SFT = pre("sft", "/// Owners are") + """
fn coll(owner: Acc, next: u32) {
	SftCollectionInfo::<T>::insert(COL, Col { collection_owner: owner, collection_name: name(b"c"), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, origin_chain: OriginChain::Root, next_serial_number: next });
}
fn token(s: u32, max: Option<u128>, held: &[(Acc, u128, u128)]) {
	let t = Tok { token_name: name(b"t"), max_issuance: max, token_issuance: held.iter().map(|h| h.1 + h.2).sum(), owned_tokens: BoundedVec::try_from(held.iter().map(|h| (h.0, SftTokenBalance::new(h.1, h.2))).collect::<Vec<_>>()).ok().unwrap() };
	TokenInfo::<T>::insert((COL, s), t);
}
"""
APP = pre("approvals", "/// Account 0 holds") + """
fn coll() {
	CollectionInfo::<T>::insert(COL, CollectionInformation::<Acc, MaxTok, StrLim> { owner: acc(5), name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, max_issuance: None, origin_chain: OriginChain::Root, next_serial_number: 3, collection_issuance: 3, cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
		owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[0, 1]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[2]) }]) });
}
"""
MKT = pre("marketplace", "fn worth()") + """
fn setup() {
	CollectionInfo::<T>::insert(COL, CollectionInformation::<Acc, MaxTok, StrLim> { owner: acc(6), name: bv(b"n"), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, max_issuance: None, origin_chain: OriginChain::Root, next_serial_number: 3, collection_issuance: 3, cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
		owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[0, 1]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[2]) }]) });
	SftCollectionInfo::<T>::insert(SCOL, SftCollectionInformation::<Acc, StrLim> { collection_owner: acc(6), collection_name: bv(b"c"), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, origin_chain: OriginChain::Root, next_serial_number: 1 });
	pallet_sft::TokenInfo::<T>::insert((SCOL, 0), SftTokenInformation::<Acc, StrLim, MaxOwners> { token_name: bv(b"t"), max_issuance: None, token_issuance: 100, owned_tokens: bv(&[(acc(0), SftTokenBalance::new(60, 0)), (acc(1), SftTokenBalance::new(40, 0))]) });
	FeeTo::<T>::put(None::<Acc>);
	Ledger::create(PAY, 1 << 90);
	for a in ALL { Ledger::set(PAY, &acc(a), 1_000_000); }
	set_block(10);
}
fn nfts(v: &[u32]) -> ListingTokens<T> { ListingTokens::Nft(NftListing { collection_id: COL, serial_numbers: bv(v) }) }
fn bal(n: u8) -> u128 { Ledger::bal(PAY, &acc(n)) }
fn held(n: u8) -> u128 { Ledger::held(PAY, &acc(n)) }
"""
AEX = pre("assetsext", "/// Gives `who`") + """
fn mk(a: u32, min: u128, bals: &[u128]) {
	let o = acc(8);
	let s: u128 = bals.iter().sum();
	if a == 1 { pallet_balances::TotalIssuance::<T>::put(s) } else {
		pallet_assets::Asset::<T>::insert(a, pallet_assets::AssetDetails { owner: o, issuer: acc(7), admin: acc(6), freezer: o, supply: s, min_balance: min, is_sufficient: true, status: pallet_assets::AssetStatus::Live });
	}
	for (i, b) in bals.iter().enumerate() {
		if a == 1 { pallet_balances::Account::<T>::insert(acc(i as u8), pallet_balances::AccountData { free: *b, reserved: 0, frozen: 0 }) } else { pallet_assets::Account::<T>::insert(a, acc(i as u8), pallet_assets::AssetAccount { balance: *b, frozen: false }) }
	}
}
const P: [PalletId; 3] = [PalletId(*b"aaaaaaaa"), PalletId(*b"bbbbbbbb"), PalletId(*b"cccccccc")];
fn hold(p: usize, who: &Acc, a: u32) -> u128 { Ext::hold_balance(&P[p], who, &a) }
"""
EPEG = pre("erc20peg", "/// The money side")
NPEG = pre("nftpeg", "/// Groups of")
ETHY = pre("ethy", "// ---------------------------------------------------------------- messages from Ethereum") + """
fn sig(k: u8) -> AuthoritySignature { sp_core::ecdsa::Signature([k; 65]).into() }
fn claim(k: u8) -> EventClaim<MaxData> {
	EventClaim { tx_hash: H256([k; 32]), source: H160([1; 20]), destination: H160([2; 20]), data: BoundedVec::truncate_from(vec![k]) }
}
fn setup() {
	Ledger::create(1, 1 << 100);
	for i in 0..8 { Ledger::set(1, &acc(i), 1_000_000); }
	NVals::put(3);
	Thr::put(66);
	CBond::put(100u128);
	RBond::put(1000u128);
	NotaryKeys::<T>::put(wb((0..3).map(key).collect::<Vec<_>>()));
	ChallengePeriod::<T>::put(10u32);
	RouteOk::put(true);
	RelayerPaidBond::<T>::insert(relayer(), 1000u128);
	Held::insert(1, relayer(), 1000u128);
	Relayer::<T>::put(relayer());
	set_block(1);
}
fn event(id: u64) -> Vec<u8> { ethabi::encode(&[Token::Uint(id.into()), Token::Address(H160([1; 20])), Token::Address(H160([2; 20])), Token::Bytes(vec![7]), Token::Uint(0u64.into())]) }
fn submit(id: u64) -> bool { with_layer(|| Ethy::submit_event(signed!(relayer()), H256([3; 32]), event(id))).is_ok() }
fn vote(id: u64, n: u16, yes: bool) -> bool {
	let result = if yes { EventClaimResult::Valid } else { EventClaimResult::UnexpectedData };
	with_layer(|| Ethy::submit_notarization(frame_system::RawOrigin::None.into(), NotarizationPayload::Event { event_claim_id: id, authority_index: n, result }, sig(0))).is_ok()
}
fn digests() -> usize { unsafe { (*core::ptr::addr_of!(vstub::system::DIGESTS)).len() } }
fn none() -> <T as frame_system::Config>::RuntimeOrigin { frame_system::RawOrigin::None.into() }
"""
VTX = pre("vortex", "/// A distribution from")
CROWD = pre("crowdsale", "fn name() ->") + """
fn start(maxt: u32, price: u128, c: &[u128]) {
	base();
	let raised: u128 = c.iter().sum();
	for (k, x) in c.iter().enumerate() { SaleParticipation::<T>::insert(2, acc(k as u8), *x); }
	SaleInfo::<T>::insert(2, info(SaleStatus::Enabled(1), price, raised, c.len() as u64));
	Max::insert(3, Some(maxt));
	Owner::insert(3, vault());
	let all = maxt as u128 * M;
	Ledger::create(VOU, all);
	Ledger::set(VOU, &vault(), all);
	Ledger::set(PAYA, &vault(), raised);
	SaleEndBlocks::<T>::insert(9, BoundedVec::truncate_from(vec![2]));
}
"""
FP = pre("futurepass", "/// Two futurepasses in") + """
fn setup() -> Acc {
	NextFuturepassId::<T>::put(3);
	let f = fp(1);
	Holders::<T>::insert(acc(0), f);
	Del::insert(f, vec![(acc(0), OWNER), (acc(1), ANY), (acc(2), ANY)]);
	f
}
"""
MAINT = pre("maintenance", "/// A name of 3 or 4") + """
fn leak(v: &[u8]) -> &'static str { Box::leak(String::from_utf8(v.to_vec()).unwrap().into_boxed_str()) }
fn bn(v: &[u8]) -> BoundedVec<u8, Limit> { BoundedVec::try_from(v.to_vec()).ok().unwrap() }
fn paused(p: &[u8], f: &[u8]) -> bool {
	unsafe { META = (leak(p), leak(f)) };
	<MaintenanceChecker<T> as MaintenanceCheck<T>>::call_paused(&RtCall(None, 0))
}
fn admitted(who: &Acc, p: &[u8], f: &[u8]) -> bool {
	unsafe { META = (leak(p), leak(f)) };
	MaintenanceChecker::<T>::new().validate(who, &RtCall(None, 0), &Default::default(), 0).is_ok()
}
fn root() -> vstub::system::Origin<Acc, RtCall> { RawOrigin::Root.into() }
"""
XRPL = pre("xrplbridge", "// ---------------------------------------------------------------- deposits") + """
fn xtx(n: u8, amount: u128) -> XrpTransaction { XrpTransaction { transaction_hash: hx(n), transaction: XrplTxData::Payment { amount, address: H160::from(acc(1)) }, timestamp: 0 } }
fn door() {
	for d in XRPLDoorAccount::VALUES {
		DoorAddress::<T>::insert(d, H160([0xd0; 20]));
		DoorTxFee::<T>::insert(d, 3);
		DoorTicketSequence::<T>::insert(d, 5);
		DoorTicketSequenceParams::<T>::insert(d, XrplTicketSequenceParams { start_sequence: 5, bucket_size: 5 });
	}
}
"""
