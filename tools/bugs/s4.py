exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
L = "pallet/ethy/src/lib.rs"
I = "pallet/ethy/src/impls.rs"
D = ["pallet-ethy", "ethabi"]
B("ethy-prune-gap", "C15", D, "the replay buffer overflowing while an id between the last one dropped and the first one kept was skipped", "a skipped message is forgotten and can never be submitted",
  [(I, "\t\t\tfor id in removed[0]..claim_ids[0] {", "\t\t\tlet last_removed = removed[removed.len() - 1];\n\t\t\tfor id in removed[0]..last_removed {")],
  ETHY + """pub fn demo() {
	setup();
	ProcessedMessageIds::<T>::put(BoundedVec::truncate_from(vec![1u64, 3, 5]));
	assert!(submit(7));
	set_block(11);
	Ethy::on_initialize(11);
	assert!(with_layer(|| Ethy::submit_missing_event(signed!(relayer()), H256([3; 32]), event(2))).is_ok());
}
""")
B("ethy-failed-replay", "C15", D, "a message whose handler refuses it, submitted a second time", "a failed message can be forwarded again and again",
  [(L, "\t\t\t\t\t\t\t\trouter_error: err,\n\t\t\t\t\t\t\t});\n", "\t\t\t\t\t\t\t\trouter_error: err,\n\t\t\t\t\t\t\t});\n\t\t\t\t\t\t\tPendingClaimStatus::<T>::remove(message_id);\n\t\t\t\t\t\t\tcontinue;\n")],
  ETHY + """pub fn demo() {
	setup();
	RouteOk::put(false);
	assert!(submit(7));
	set_block(11);
	Ethy::on_initialize(11);
	assert_eq!(Routed::get().len(), 1);
	assert!(!submit(7));
}
""")
B("ethy-extend-drop", "C15", D, "a challenge still open when its block comes, while other messages are already due one challenge period later", "the other messages due then are lost",
  [(L, "\t\t\t\t\t\tlet mut message_ids = v.clone().into_inner();\n\t\t\t\t\t\tmessage_ids.push(message_id);", "\t\t\t\t\t\tlet mut message_ids = v.clone().into_inner();\n\t\t\t\t\t\tif message_ids.iter().any(|id| *id > message_id) {\n\t\t\t\t\t\t\tmessage_ids.clear();\n\t\t\t\t\t\t}\n\t\t\t\t\t\tmessage_ids.push(message_id);")],
  ETHY + """pub fn demo() {
	setup();
	assert!(submit(7));
	assert!(Ethy::submit_challenge(signed!(acc(6)), 7).is_ok());
	set_block(11);
	assert!(submit(8));
	Ethy::on_initialize(11);
	assert_eq!(MessagesValidAt::<T>::get(21).len(), 2);
}
""")
B("ethy-challenge-again", "C16", D, "challenging a claim the notaries have already confirmed", "a message can be held up by one challenge after another",
  [(L, "\t\t\t\tPendingClaimStatus::<T>::get(event_claim_id) == Some(EventClaimStatus::Pending),", "\t\t\t\tPendingClaimStatus::<T>::get(event_claim_id) != Some(EventClaimStatus::Challenged),")],
  ETHY + """pub fn demo() {
	setup();
	assert!(submit(7));
	assert!(Ethy::submit_challenge(signed!(acc(6)), 7).is_ok());
	for n in 0..2 { assert!(vote(7, n, true)); }
	assert!(PendingClaimStatus::<T>::get(7) == Some(EventClaimStatus::ProvenValid));
	assert!(with_layer(|| Ethy::submit_challenge(signed!(acc(5)), 7)).is_err());
}
""")
B("ethy-slash-current", "C16", D, "a relayer whose bond was paid before the required bond changed", "the slashed relayer pays the current requirement instead of his bond",
  [(I, "\t\t\t\t\tlet relayer_paid_bond = <RelayerPaidBond<T>>::take(relayer.clone());", "\t\t\t\t\tlet relayer_paid_bond =\n\t\t\t\t\t\t<RelayerPaidBond<T>>::take(relayer.clone()).min(T::RelayerBond::get());")],
  ETHY + """pub fn demo() {
	setup();
	RBond::put(400u128);
	assert!(submit(7));
	assert!(Ethy::submit_challenge(signed!(acc(6)), 7).is_ok());
	for n in 0..2 { assert!(vote(7, n, false)); }
	assert_eq!((Ledger::bal(1, &acc(6)), Ledger::held(1, &relayer())), (1_001_000, 0));
}
""")
B("ethy-revote", "C16", D, "a notary sending a second, different vote on the same claim", "a notary can change its vote after the fact",
  [(L, "\t\t\t\t\t\tif <EventNotarizations<T>>::contains_key(\n\t\t\t\t\t\t\tpayload.payload_id(),\n\t\t\t\t\t\t\t&notary_public_key,\n\t\t\t\t\t\t) {", "\t\t\t\t\t\tlet seen = <EventNotarizations<T>>::get(payload.payload_id(), &notary_public_key);\n\t\t\t\t\t\tif matches!(payload, NotarizationPayload::Event { result, .. } if seen.as_ref() == Some(result)) {")],
  ETHY + """pub fn demo() {
	setup();
	use frame_support::unsigned::ValidateUnsigned;
	EventNotarizations::<T>::insert(7, key(1), EventClaimResult::Valid);
	let payload = NotarizationPayload::Event { event_claim_id: 7, authority_index: 1, result: EventClaimResult::NoTxLogs };
	let mut k = [1u8; 33];
	k[0] = 2;
	unsafe { vstub::io::KEYS = vec![k] };
	let s: AuthoritySignature = sp_core::ecdsa::Signature(vstub::io::sign(&payload.encode(), &k).unwrap()).into();
	let call = Call::<T>::submit_notarization { payload, signature: s };
	assert!(Ethy::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &call).is_err());
	EventNotarizations::<T>::remove(7, key(1));
	assert!(Ethy::validate_unsigned(sp_runtime::transaction_validity::TransactionSource::External, &call).is_ok());
}
""")
B("ethy-unbond-idle", "C16", D, "the active relayer withdrawing while no claim is under challenge", "the active relayer takes its bond back before it can be challenged",
  [(L, "\t\t\tif Relayer::<T>::get() == Some(origin.clone()) {", "\t\t\tif !PendingClaimChallenges::<T>::get().is_empty()\n\t\t\t\t&& Relayer::<T>::get() == Some(origin.clone())\n\t\t\t{")],
  ETHY + """pub fn demo() {
	setup();
	assert!(submit(7));
	assert!(Ethy::withdraw_relayer_bond(signed!(relayer())).is_err());
}
""")
B("ethy-idle-drop", "C17", D, "the weight left in a block running out with delayed messages still queued", "a delayed message is taken off the queue without ever being signed",
  [(L, "\t\t\t\tlet new_consumed_weight = consumed_weight.saturating_add(weight_per_proof);\n", "\t\t\t\tlet new_consumed_weight = consumed_weight.saturating_add(weight_per_proof);\n\t\t\t\tlet next_proof = pending_event_proofs.next();\n"),
   (L, "\t\t\t\tlet Some((event_proof_id, signing_request)) = pending_event_proofs.next() else {", "\t\t\t\tlet Some((event_proof_id, signing_request)) = next_proof else {")],
  ETHY + """pub fn demo() {
	setup();
	for k in 0..3u64 { PendingEventProofs::<T>::insert(k, EthySigningRequest::XrplTx(BoundedVec::truncate_from(vec![k as u8]))); }
	let one = frame_support::weights::constants::RocksDbWeight::get().reads_writes(2, 2).ref_time();
	let base = frame_support::weights::constants::RocksDbWeight::get().reads(3).ref_time();
	Ethy::on_idle(5, Weight::from_parts(base + one + one / 2, 0));
	assert_eq!(digests() + PendingEventProofs::<T>::iter().count(), 3);
}
""")
B("ethy-send-handover", "C17", D, "a message sent during the pause for a validator handover", "a message is put up for signing while the validators change",
  [(I, "\t\tif Self::bridge_paused() {\n\t\t\tPendingEventProofs", "\t\tif BridgePaused::<T>::get().manual_pause {\n\t\t\tPendingEventProofs")],
  ETHY + """pub fn demo() {
	setup();
	BridgePaused::<T>::put(BridgePauseStatus { manual_pause: false, authorities_change: true });
	let id = <Ethy as EthereumBridge>::send_event(&H160([1; 20]), &H160([2; 20]), &[1, 2]).unwrap();
	assert!(digests() == 0 && PendingEventProofs::<T>::contains_key(id));
}
""")
B("ethy-xrpl-same-len", "C18", D, "the XRPL signers of the next set being different ones but as many", "the XRPL signer list is not updated for the next validators",
  [(I, "\t\tif notary_xrpl_keys == next_notary_xrpl_keys {", "\t\tif notary_xrpl_keys.len() == next_notary_xrpl_keys.len()\n\t\t\t&& notary_xrpl_keys.first() == next_notary_xrpl_keys.first()\n\t\t{")],
  ETHY + """pub fn demo() {
	setup();
	for i in 0..4 { XrplDoorSigners::<T>::insert(key(i), true); }
	NotaryXrplKeys::<T>::put(wb(vec![key(0), key(1)]));
	NextNotaryKeys::<T>::put(wb(vec![key(0), key(2), key(3)]));
	NextAuthorityChange::<T>::put(5u32);
	Ethy::on_initialize(5);
	assert_eq!(Signers::get().len(), 1);
}
""")
B("ethy-forced-old", "C18", D, "an era cut short (its handover not announced beforehand)", "the handover after a forced era puts the old validators back",
  [(I, "\t\t\tlet next_notary_keys = NextNotaryKeys::<T>::get();\n", "\t\t\tlet mut next_notary_keys = NextNotaryKeys::<T>::get();\n"),
   (I, "\t\t\t\tSelf::handle_authorities_change();\n\n\t\t\t\t// Schedule", "\t\t\t\tSelf::handle_authorities_change();\n\t\t\t\tif NextNotaryKeys::<T>::get().len() < NotaryKeys::<T>::get().len() {\n\t\t\t\t\tnext_notary_keys = NotaryKeys::<T>::get();\n\t\t\t\t}\n\n\t\t\t\t// Schedule")],
  ETHY + """pub fn demo() {
	setup();
	IsFinal::put(true);
	NextNotaryKeys::<T>::put(wb(vec![key(4)]));
	<Ethy as OneSessionHandler<Acc>>::on_before_session_ending();
	let s = Sched::get();
	match &s[0].1 .0 {
		Some(Call::finalise_authorities_change { next_notary_keys }) => assert_eq!(next_notary_keys.clone().into_inner(), vec![key(4)]),
		_ => panic!(),
	}
}
""")
B("ethy-threshold-floor", "C18", D, "a set whose size times the threshold is not a whole number", "the gadget is told one signature too few is enough",
  [(I, "\t\t\t\tproof_threshold: T::NotarizationThreshold::get()\n\t\t\t\t\t.mul_ceil(next_notary_keys.len() as u32),", "\t\t\t\tproof_threshold: T::NotarizationThreshold::get()\n\t\t\t\t\t.mul_floor(next_notary_keys.len() as u32),")],
  ETHY + """pub fn demo() {
	setup();
	let next = vec![key(4), key(5)];
	Ethy::finalise_authorities_change(none(), wb(next.clone())).unwrap();
	let want = ConsensusLog::<Id>::AuthoritiesChange(ValidatorSet { validators: next, id: 1, proof_threshold: 2 }).encode();
	let d = unsafe { &*core::ptr::addr_of!(vstub::system::DIGESTS) };
	match &d[0] {
		DigestItem::Consensus(_, x) => assert!(*x == want),
		_ => panic!(),
	}
}
""")
B("ecall-premature", "C19", D, "the newest answer being a rare one while another can still reach the threshold", "a request fails although its answer could still be agreed on",
  [(I, "\t\t\tPercent::from_rational(count + outstanding_count, notary_count)\n\t\t\t\t>= notarization_threshold\n\t\t});", "\t\t\tPercent::from_rational(count + outstanding_count, notary_count)\n\t\t\t\t>= notarization_threshold\n\t\t}) && Percent::from_rational(\n\t\t\tnotarizations.get(&result).copied().unwrap_or_default() + outstanding_count,\n\t\t\tnotary_count,\n\t\t) >= notarization_threshold;")],
  ETHY + """pub fn demo() {
	setup();
	let id = Ethy::checked_eth_call(&H160([1; 20]), &[1], 1, 2, 3);
	let ok = CheckedEthCallResult::Ok([1; 32], 1, 2);
	for (n, result) in [(0, ok), (1, ok), (2, CheckedEthCallResult::ReturnDataEmpty), (3, ok)] {
		Ethy::submit_notarization(none(), NotarizationPayload::Call { call_id: id, authority_index: n, result }, sig(0)).unwrap();
		if n == 2 { assert!(Failed::get().is_empty()); }
	}
	assert_eq!((Done::get().len(), Failed::get().len()), (1, 0));
}
""".replace("setup();\n", "setup();\n\tThr::put(75);\n\tNVals::put(4);\n\tNotaryKeys::<T>::put(wb((0..4).map(key).collect::<Vec<_>>()));\n"))
B("ecall-window", "C19", D, "a request naming exactly the oldest block still acceptable", "the call is made at another block than the one named",
  [(I, "\t\tif request.try_block_number >= oldest_acceptable_eth_block\n", "\t\tif request.try_block_number > oldest_acceptable_eth_block\n")],
  ETHY + """pub fn demo() {
	setup();
	let mut k = [1u8; 33];
	k[0] = 2;
	EthCallRequestInfo::<T>::insert(0, CheckedEthCallRequest { input: BoundedVec::truncate_from(vec![1]), target: H160([1; 20]), timestamp: 1, max_block_look_behind: 5, try_block_number: 95, check_timestamp: NOW });
	EthCallRequests::<T>::put(wb(vec![0u64]));
	unsafe {
		vstub::io::KEYS = vec![k];
		TRYB = 95;
		HEAD = Some(Ok(Some(EthBlock { number: Some(100.into()), timestamp: 50.into(), ..Default::default() })));
		OLDER = Some(Ok(Some(EthBlock { number: Some(95.into()), timestamp: 40.into(), ..Default::default() })));
		RETURN = Some(Ok(vec![1; 32]));
	}
	Ethy::offchain_worker(5);
	let c = unsafe { (*core::ptr::addr_of!(CALLED)).clone() };
	assert_eq!(c[0].2, 95);
}
""")
