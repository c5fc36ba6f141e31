exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
X = "pallet/erc20-peg/src/lib.rs"
N = "pallet/nft-peg/src/lib.rs"
ED = ["pallet-erc20-peg", "ethabi"]
ND = ["pallet-nft-peg", "pallet-nft", "ethabi"]
B("ep-partial-block", "C13", ED, "leftover weight for only part of a block's due payments", "the payments that were left for the next block are dropped for ever",
  [(X, "\t\t\t\tprocessed_payment_count += payment_ids.len() as u8;\n", "\t\t\t\tif processed_payment_count > 0 && payment_ids.len() == remaining_payments {\n\t\t\t\t\tprocessed_block_count = processed_block_count.max(1) + 1;\n\t\t\t\t}\n\t\t\t\tprocessed_payment_count += payment_ids.len() as u8;\n")],
  EPEG + """pub fn demo() {
	setup();
	Ledger::create(TOK, 0);
	for i in 0..3u64 {
		DelayedPayments::<T>::insert(i, PendingPayment::Deposit(Erc20DepositEvent { token_address: eth(ETOK), amount: 5u128.into(), beneficiary: acc(i as u8).into() }));
	}
	DelayedPaymentSchedule::<T>::insert(5, WeakBoundedVec::force_from(vec![0u64], None));
	DelayedPaymentSchedule::<T>::insert(7, WeakBoundedVec::force_from(vec![1u64, 2], None));
	ReadyBlocks::<T>::put(frame_support::BoundedVec::truncate_from(vec![5u32, 7]));
	let each = 8 * 25_000_000 + 10 * 100_000_000u64;
	Peg::on_idle(10, Weight::from_parts(25_000_000 + 2 * each, u64::MAX));
	Peg::on_idle(11, Weight::from_parts(1 << 50, u64::MAX));
	assert_eq!(Ledger::bal(TOK, &acc(2)), 5);
}
""")
B("ep-native-source", "C13", ED, "a ROOT deposit message coming from the ERC-20 peg contract", "the native token is paid out on the word of the wrong contract",
  [(X, "\t\t\t\t\tsource == &RootPegContractAddress::<T>::get(),", "\t\t\t\t\tSelf::verify_source(source).is_ok(),")],
  EPEG + """pub fn demo() {
	setup();
	DepositsActive::<T>::put(true);
	Ledger::create(ROOT, 1000);
	Ledger::set(ROOT, &vault(), 1000);
	assert!(Peg::on_event(&eth(PEG), &message(eth(EROOT), 10, acc(0).into())).is_err());
	assert!(Peg::on_event(&eth(RPEG), &message(eth(EROOT), 10, acc(0).into())).is_ok());
	assert_eq!(Ledger::bal(ROOT, &acc(0)), 10);
}
""")
B("ep-claim-keeps", "C13", ED, "root claiming a delayed payment early whose block holds other payments before it", "claiming one payment also drops the ones scheduled before it",
  [(X, "\t\t\t\tpayment_ids.remove(pos);", "\t\t\t\tlet _ = payment_ids.drain(..=pos);")],
  EPEG + """pub fn demo() {
	setup();
	Ledger::create(TOK, 0);
	for i in 0..2u64 {
		DelayedPayments::<T>::insert(i, PendingPayment::Deposit(Erc20DepositEvent { token_address: eth(ETOK), amount: 5u128.into(), beneficiary: acc(i as u8).into() }));
	}
	DelayedPaymentSchedule::<T>::insert(5, WeakBoundedVec::force_from(vec![0u64, 1], None));
	Peg::claim_delayed_payment(vstub::system::RawOrigin::Root.into(), 5, 1).unwrap();
	Peg::on_initialize(5);
	Peg::on_idle(5, Weight::from_parts(1 << 50, u64::MAX));
	assert_eq!((Ledger::bal(TOK, &acc(0)), Ledger::bal(TOK, &acc(1))), (5, 5));
}
""")
B("np-mint-room", "C14", ND, "a deposit of more tokens than a nearly full collection has room for", "the tokens that do not fit are neither minted nor kept for their owner",
  [("pallet/nft/src/impls.rs", "\t\t\t.collect::<Vec<SerialNumber>>();\n\n\t\tlet serial_numbers: Result<", "\t\t\t.collect::<Vec<SerialNumber>>();\n\t\tlet room =\n\t\t\tT::MaxTokensPerCollection::get().saturating_sub(collection_info.collection_issuance);\n\t\tif room > 0 {\n\t\t\tserial_numbers_trimmed.truncate(room as usize);\n\t\t}\n\n\t\tlet serial_numbers: Result<")],
  NPEG + """pub fn demo() {
	ContractAddress::<T>::put(PEG);
	coll(COL, OriginChain::Ethereum, &[(acc(1), vec![1, 2])]);
	map(COL, E1);
	let data = ethabi::encode(&[Token::Uint(1u32.into()), Token::Array(vec![Token::Address(eth(E1))]), Token::Array(vec![ids(&[7, 8])]), Token::Address(acc(0).into())]);
	let _ = Peg::on_event(&PEG, &data);
	let kept = (0..10).filter_map(blocked).map(|b| b.2.len()).sum::<usize>();
	let minted = [7, 8].iter().filter(|s| owner_of(COL, **s) == Some(acc(0))).count();
	assert_eq!(kept + minted, 2);
}
""")
B("np-withdraw-native", "C14", ND, "a withdrawal that lists a bridged collection first and a Root collection second", "a native NFT is burnt for a message about a contract that never held it",
  [(N, "\t\t\t\tcollection_info.origin_chain == OriginChain::Ethereum,\n", "\t\t\t\tcollection_info.origin_chain == OriginChain::Ethereum || idx > 0,\n")],
  NPEG + """pub fn demo() {
	ContractAddress::<T>::put(PEG);
	coll(COL, OriginChain::Root, &[(acc(0), vec![1])]);
	coll(COL2, OriginChain::Ethereum, &[(acc(0), vec![2])]);
	map(COL, E1);
	map(COL2, E2);
	assert!(with_layer(|| Peg::withdraw(signed!(acc(0)), bv(&[COL2, COL]), bv(&[bv(&[2]), bv(&[1])]), eth(9))).is_err());
	assert!(with_layer(|| Peg::withdraw(signed!(acc(0)), bv(&[COL2]), bv(&[bv(&[2])]), eth(9))).is_ok());
}
""")
B("np-reclaim-keep", "C14", ND, "a reclaim of blocked tokens whose bridge message goes to another address than the claimer's own", "blocked tokens can be reclaimed again and again",
  [(N, "\t\t\t\t<BlockedTokens<T>>::remove(blocked_mint_id);", "\t\t\t\tif T::AccountId::from(destination) == who {\n\t\t\t\t\t<BlockedTokens<T>>::remove(blocked_mint_id);\n\t\t\t\t}")],
  NPEG + """pub fn demo() {
	ContractAddress::<T>::put(PEG);
	coll(COL, OriginChain::Ethereum, &[(acc(1), vec![1, 2, 3])]);
	map(COL, E1);
	BlockedTokens::<T>::insert(4, BlockedTokenInfo { collection_id: COL, destination_address: acc(0), serial_numbers: bv(&[9]) });
	assert!(with_layer(|| Peg::reclaim_blocked_nfts(signed!(acc(0)), 4, eth(9))).is_ok());
	assert!(with_layer(|| Peg::reclaim_blocked_nfts(signed!(acc(0)), 4, eth(9))).is_err());
}
""")
