exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
E20 = 'evm-precompiles/erc20/src/lib.rs'; E7 = 'evm-precompiles/erc721/src/lib.rs'
D20 = ["pallet-evm-precompiles-erc20","pallet-assets-ext","pallet-assets","pallet-balances","pallet-token-approvals","precompile-utils"]
D7 = ["pallet-evm-precompiles-erc721","pallet-nft","pallet-token-approvals","pallet-xls20","precompile-utils"]
P20 = pre("erc20", "/// An asset with an arbitrary issuance")
P20b = "".join(x for x in [P20]) + """
fn wa(a: &Acc) -> [u8; 32] { let mut w = [0; 32]; w[12..].copy_from_slice(&H160::from(*a).0); w }
fn wu(x: U256) -> [u8; 32] { let mut w = [0; 32]; x.to_big_endian(&mut w); w }
fn input(selector: Action, words: &[[u8; 32]]) -> Vec<u8> { let n: u32 = selector.into(); let mut v = n.to_be_bytes().to_vec(); for w in words { v.extend_from_slice(w); } v }
fn run(h: &mut Handle) -> PrecompileResult { with_layer(|| Erc20PrecompileSet::<T>::new().execute(h).expect("the asset exists")) }
fn setup() {
	token(100);
	pallet_assets::Account::<T>::insert(A, acc(0), pallet_assets::AssetAccount { balance: 60, frozen: false });
	pallet_assets::Account::<T>::insert(A, acc(1), pallet_assets::AssetAccount { balance: 40, frozen: false });
	pallet_token_approvals::ERC20Approvals::<T>::insert((acc(0), A), acc(1), 80);
}
"""
B("erc20-view-keepalive", "C29", D20, "balanceOf an account that holds all it may", "balanceOf shows less than the account can transfer",
  [(E20, 'Preservation::Expendable,\n\t\t\t\tFortitude::Polite', 'Preservation::Preserve,\n\t\t\t\tFortitude::Polite')],
  P20b + """pub fn demo() {
	setup();
	let mut h = Handle::new(code(), acc(2).into(), input(Action::BalanceOf, &[wa(&acc(0))]));
	assert_eq!(U256::from_big_endian(&run(&mut h).unwrap().output), U256::from(60));
}
""")
B("erc20-from-keepalive", "C29", D20, "transferFrom of an owner's whole balance", "an approved transfer of everything is refused",
  [(E20, 'destination: to.clone(),\n\t\t\t\t\tamount,\n\t\t\t\t\tkeep_alive: false', 'destination: to.clone(),\n\t\t\t\t\tamount,\n\t\t\t\t\tkeep_alive: true')],
  P20b + """pub fn demo() {
	setup();
	let mut h = Handle::new(code(), acc(1).into(), input(Action::TransferFrom, &[wa(&acc(0)), wa(&acc(2)), wu(U256::from(60))]));
	assert!(run(&mut h).is_ok());
	assert_eq!(bal(&acc(2)), 60);
}
""")
P7 = pre("erc721", "fn approvals(")
P7 = P7[:P7.index("/// Account 0 holds two tokens")] + """
fn setup() {
	CollectionInfo::<T>::insert(COL, CollectionInformation::<Acc, MaxTok, StrLim> { owner: acc(4), name: BoundedVec::try_from(b"n".to_vec()).ok().unwrap(), metadata_scheme: MetadataScheme(BoundedVec::try_from(b"m".to_vec()).ok().unwrap()), royalties_schedule: None, max_issuance: None, origin_chain: OriginChain::Root, next_serial_number: 3, collection_issuance: 3, cross_chain_compatibility: CrossChainCompatibility { xrpl: false },
		owned_tokens: bv(&[TokenOwnership { owner: acc(0), owned_serials: bv(&[0, 1]) }, TokenOwnership { owner: acc(1), owned_serials: bv(&[2]) }]) });
}
fn wa(a: &Acc) -> [u8; 32] { let mut w = [0; 32]; w[12..].copy_from_slice(&H160::from(*a).0); w }
fn wn(x: u32) -> [u8; 32] { let mut w = [0; 32]; U256::from(x).to_big_endian(&mut w); w }
fn input(selector: Action, words: &[[u8; 32]]) -> Vec<u8> { let n: u32 = selector.into(); let mut v = n.to_be_bytes().to_vec(); for w in words { v.extend_from_slice(w); } v }
fn run(h: &mut Handle) -> PrecompileResult { with_layer(|| Erc721PrecompileSet::<T>::new().execute(h).expect("the collection exists")) }
"""
B("erc721-silent-receiver", "C30", D7, "safeTransferFrom to a contract that answers nothing", "a contract that does not know NFTs receives one",
  [(E7, 'if !output.starts_with(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR) {', 'if !output.is_empty() && !output.starts_with(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR) {')],
  P7 + """pub fn demo() {
	setup();
	let to = acc(9);
	AccountCodes::<T>::insert(H160::from(to), vec![1u8]);
	let mut h = Handle::new(code(), acc(0).into(), input(Action::SafeTransferFrom, &[wa(&acc(0)), wa(&to), wn(0)]));
	h.answer = Some(Box::new(move |_| (ExitReason::Succeed(ExitSucceed::Returned), vec![])));
	let _ = run(&mut h);
	assert!(owner_of(0) == Some(acc(0)));
}
""")
N = 'pallet/nfi/src/lib.rs'; XL = 'pallet/xls20/src/lib.rs'; D = 'pallet/doughnut/src/lib.rs'
DT = ["pallet-nft","pallet-sft","pallet-nfi","pallet-xls20"]
PT = pre("tokx", "/// An NFT collection of account 5") + """
fn nft(xrpl: bool) {
	pallet_nft::CollectionInfo::<T>::insert(NCOL, CollectionInformation { owner: acc(5), name: name(b"n"), metadata_scheme: MetadataScheme(name(b"m")), royalties_schedule: None, max_issuance: None, origin_chain: OriginChain::Root, next_serial_number: 2, collection_issuance: 2, cross_chain_compatibility: CrossChainCompatibility { xrpl },
		owned_tokens: BoundedVec::try_from(vec![TokenOwnership { owner: acc(0), owned_serials: BoundedVec::try_from(vec![0, 1]).ok().unwrap() }]).ok().unwrap() });
}
const N: NFISubType = NFISubType::NFI;
"""
B("nfi-burn-keeps", "C40", DT, "burning a token that has data", "a burnt token's data stays",
  [(N, 'let _ = NfiData::<T>::clear_prefix(token_id.clone(), limit, None);', 'let _ = NfiData::<T>::clear_prefix(token_id.clone(), 0, None);')],
  PT + """pub fn demo() {
	nft(false);
	let id = Tid { chain_id: 7668, collection_id: GC::U32(NCOL), serial_number: GS::U32(0) };
	pallet_nfi::NfiData::<T>::insert(id.clone(), N, NFIDataType::NFI(NFIMatrix { metadata_link: name(b"x"), verification_hash: H256([1; 32]) }));
	pallet_nft::UtilityFlags::<T>::insert(NCOL, seed_pallet_common::utils::CollectionUtilityFlags { transferable: true, burnable: true, mintable: true });
	assert!(with_layer(|| Nft::burn(signed!(acc(0)), (NCOL, 0))).is_ok());
	assert!(!pallet_nfi::NfiData::<T>::contains_key(id, N));
}
""")
B("nfi-free-for-receiver", "C40", DT, "a request by the account that receives the network's share", "that account pays less than the fee and the rest receives less" ,
  [(N, 'if let Some(tx_fee_pot_id) = FeeTo::<T>::get() {', 'if let Some(tx_fee_pot_id) = FeeTo::<T>::get().filter(|f| f != who) {')],
  PT + """pub fn demo() {
	nft(false);
	Ledger::create(2, 1 << 100);
	Ledger::set(2, &acc(7), 1_000_000);
	pallet_nfi::MintFee::<T>::insert(N, FeeDetails { asset_id: 2, amount: 10_000, receiver: acc(8) });
	pallet_nfi::FeeTo::<T>::put(acc(7));
	pallet_nfi::NfiEnabled::<T>::insert((7668u64, GC::U32(NCOL)), N, true);
	assert!(with_layer(|| <Nfi as NFIRequest>::request(&acc(7), NCOL, vec![0])).is_ok());
	assert_eq!(Ledger::bal(2, &acc(8)), 10_000 - 50);
}
""")
B("xls20-remap-first", "C41", DT, "fulfilling a second time the token with serial number 0", "a token's XLS-20 token changes",
  [(XL, '\t\t\t\tensure!(\n\t\t\t\t\t!Xls20TokenMap::<T>::contains_key(collection_id, serial_number),\n\t\t\t\t\tError::<T>::MappingAlreadyExists\n\t\t\t\t);\n\t\t\t\t// Insert', '\t\t\t\tensure!(\n\t\t\t\t\tXls20TokenMap::<T>::get(collection_id, serial_number)\n\t\t\t\t\t\t.map_or(true, |_| *serial_number == 0),\n\t\t\t\t\tError::<T>::MappingAlreadyExists\n\t\t\t\t);\n\t\t\t\t// Insert')],
  PT + """pub fn demo() {
	nft(true);
	pallet_xls20::Relayer::<T>::put(acc(1));
	pallet_xls20::Xls20TokenMap::<T>::insert(NCOL, 0, [9u8; 32]);
	assert!(with_layer(|| Xls::fulfill_xls20_mint(signed!(acc(1)), NCOL, BoundedVec::try_from(vec![(0u32, [8u8; 32])]).ok().unwrap())).is_err());
}
""")
DD = ["pallet-doughnut","doughnut-rs","pallet-transaction-payment"]
PD = pre("dough", "/// Who a doughnut's transaction is from.")
NUT = "Nut { version: 1, issuer: 0, holder: 1, mode: 0, expiry: 100, start: 0, signed: 1, domain: 1, top: [1, 5, 7] }"
B("dough-blocked-swapped", "C42", DD, "a doughnut between accounts one of which blocked the other", "a holder its issuer revoked can go on acting",
  [(D, '!BlockedHolders::<T>::get(issuer_address.clone(), holder_address.clone()),', '!BlockedHolders::<T>::get(holder_address.clone(), issuer_address.clone()),')],
  PD + """pub fn demo() {
	let d = %s;
	let (i, h) = (d.issuer().unwrap(), d.holder().unwrap());
	WhitelistedHolders::<T>::insert(h, true);
	BlockedHolders::<T>::insert(i, h, true);
	let c = outer(5, &d.bytes(), 0, genesis(), 0, vec![]);
	assert!(RtCall::Dough(c).dispatch(RawOrigin::None.into()).is_err());
	assert!(Ran::get().is_empty());
}
""" % NUT)
B("dough-verify-later", "C42", DD, "a doughnut whose issuer did not sign it", "anybody acts for anybody",
  [(D, 'doughnut_v1.verify().map_err(|_| Error::<T>::DoughnutVerifyFailed)?;\n', '')],
  PD + """pub fn demo() {
	let mut d = %s;
	d.signed = 0;
	WhitelistedHolders::<T>::insert(d.holder().unwrap(), true);
	let c = outer(5, &d.bytes(), 0, genesis(), 0, vec![]);
	assert!(RtCall::Dough(c).dispatch(RawOrigin::None.into()).is_err());
}
""" % NUT)
RI = 'runtime/src/impls.rs'
DG = ["pallet-futurepass","pallet-assets-ext","pallet-assets","pallet-balances","pallet-evm","pallet-evm-precompiles-futurepass","pallet-tx-fee-pot","fp-evm","precompile-utils"]
PG = pre("glue", "#[no_mangle]\npub extern \"C\" fn h_router")
PG = "\n".join(l for l in PG.split("\n") if not l.startswith("#!["))
B("rt-session-late", "C38", DG, "a session after the one in which the era was due", "sessions after the era's last count as last too",
  [(RI, '== era_start_session_index + SessionsPerEra::get().saturating_sub(1)', '>= era_start_session_index + SessionsPerEra::get().saturating_sub(1)')],
  PG + """pub fn demo2() {
	Era_::put(Some(3u32));
	Sess::put(140);
	Force::put(0);
	Start::insert(3, 100);
	assert!(!<StakingSessionTracker as FinalSessionTracker>::is_active_session_final());
}
pub fn demo() { demo2() }
""")
B("rt-refund-half", "C37", DG, "a deposit into an account of less than a drop above a whole number", "the account receives less than was paid",
  [(RI, 'C::deposit_into_existing(who, scale_wei_to_6dp(value))', 'C::deposit_into_existing(who, value / XRP_UNIT_VALUE)')],
  PG + """
pub fn demo() {
	xrp(&[acc(0)]);
	let b = bal(&acc(0));
	let _ = Cur::deposit_into_existing(&acc(0), 1_000_000_000_001u128).map(core::mem::forget);
	assert_eq!(bal(&acc(0)), b + 2);
}
""")
B("rt-proxy-any-owner", "C39", DG, "comparing the owner's kind of proxy with a proxy of any kind", "a delegate with all rights counts as above the owner",
  [(RI, '(_, ProxyType::Owner) => false,\n\t\t\t(ProxyType::Any, _) => true,', '(ProxyType::Any, _) => true,\n\t\t\t(_, ProxyType::Owner) => false,')],
  PG + """
pub fn demo() {
	use frame_support::traits::InstanceFilter;
	assert!(!ProxyType::Any.is_superset(&ProxyType::Owner));
}
""")
B("rt-refund-all", "C39", DG, "removing one of several delegates", "the deposit for the delegates that stay is refunded too",
  [(RI, 'let removal_refund = pre_removal_deposit - post_removal_deposit;', 'let removal_refund = pre_removal_deposit;')],
  PG + """pub fn demo() {}
""") if False else None
