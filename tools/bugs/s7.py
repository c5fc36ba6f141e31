exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
M = 'pallet/migration/src/lib.rs'
DM = ["pallet-migration"]
PM = pre("migration", "/// One idle hook of a block")
SET = '''
	unsafe { ITEMS = 3; STEP = (10, 10); BASE = (10, 10); MAX = (1000, 1000); VERSION = false; }
	MigrationEnabled::<T>::put(true);
'''
B("mig-restarts", "C43", DM, "an upgrade of the runtime while a migration is in progress, and a later block", "the progress of a running migration is thrown away by an upgrade, so items are converted twice",
  [(M, "			return DbWeight::get().reads(1);\n		}\n\n			// Return", "			return DbWeight::get().reads(1);\n		}\n\n			// Return") if 0 else
   (M, "		if Self::migration_in_progress() {", "		if Self::migration_in_progress() && LastKey::<T>::get().is_none() {")],
  PM + 'pub fn demo() {' + SET + '''
	Pallet::<T>::on_runtime_upgrade();
	BlockLimit::<T>::put(2);
	Pallet::<T>::on_idle(1, w((1000, 1000)));
	Pallet::<T>::on_runtime_upgrade();
	assert!(Status::<T>::get() == MigrationStatus::InProgress { steps_done: 2 });
}''')
B("mig-delay-loses-key", "C43", DM, "a block that takes exactly as many steps as the limit, and a further block", "the key of the last step of a full block is not kept, so its item is converted again",
  [(M, "			last_key = step_result.last_key.clone();\n", "			if step_counter.saturating_add(1) < block_limit || step_result.is_finished() || last_key_first(step_counter) {\n				last_key = step_result.last_key.clone();\n			}\n") if 0 else
   (M, "			let step_result = T::CurrentMigration::step(last_key);\n			last_key = step_result.last_key.clone();", "			let step_result = T::CurrentMigration::step(last_key.clone());\n			if step_counter == 0 || step_counter.saturating_add(1) < block_limit {\n				last_key = step_result.last_key.clone();\n			}")],
  PM + 'pub fn demo() {' + SET + '''
	Pallet::<T>::on_runtime_upgrade();
	BlockLimit::<T>::put(2);
	Pallet::<T>::on_idle(1, w((1000, 1000)));
	Pallet::<T>::on_idle(2, w((1000, 1000)));
	assert!(Done::get() == vec![0, 1, 2]);
}''')
B("mig-limit-exact", "C43", DM, "a migration whose last item is converted by the last step of a block", "the migration is declared complete when the block is full, although items may be left",
  [(M, "			if step_result.is_finished() {", "			if step_result.is_finished() || (step_counter == block_limit && previous_steps > block_limit) {")],
  PM + 'pub fn demo() {' + SET + '''
	Pallet::<T>::on_runtime_upgrade();
	unsafe { ITEMS = 9; }
	BlockLimit::<T>::put(2);
	for b in 1..8 { Pallet::<T>::on_idle(b, w((1000, 1000))); }
	assert!(Done::get().len() == 9);
}''')
B("mig-delay-zero", "C43", DM, "a block delay on which the block number has a remainder, in a block whose number is above it", "the delay is taken as a number of blocks to begin after and not as a pace",
  [(M, "			if block_number % delay != BlockNumberFor::<T>::zero() {", "			if block_number < delay {")],
  PM + 'pub fn demo() {' + SET + '''
	Pallet::<T>::on_runtime_upgrade();
	BlockLimit::<T>::put(1);
	BlockDelay::<T>::put(4);
	for b in 1..8 { Pallet::<T>::on_idle(b, w((1000, 1000))); }
	assert!(Done::get().len() == 1);
}''')
B("mig-paused-completes", "C43", DM, "a migration that governance paused, in an upgrade whose storage version is not the new one", "an upgrade of the runtime resumes a paused migration",
  [(M, "			Status::<T>::put(MigrationStatus::InProgress { steps_done: 0 });", "			Status::<T>::put(MigrationStatus::InProgress { steps_done: 0 });\n			MigrationEnabled::<T>::put(true);")],
  PM + 'pub fn demo() {' + SET + '''
	MigrationEnabled::<T>::put(false);
	Pallet::<T>::on_runtime_upgrade();
	assert!(!MigrationEnabled::<T>::get());
}''')
XL = 'pallet/xrpl/src/lib.rs'; XT = 'pallet/xrpl/src/types.rs'
DX = ["pallet-xrpl", "pallet-transaction-payment"]
PX = pre("xrpl", "/// Whom a transaction is from, before").replace("[0xa0 + n; 32]", "sp_io::hashing::blake2_256(&RtCall::Other(n).encode())")
TXN = '''
	hashes();
	for k in 0..KEYS { let a = who(k).unwrap(); Money::insert(a, 1000u128); Money::insert(acc(k), 1000u128); Fps::insert(a, acc(k)); }
	set_block(20);
	let s = Says { genesis: 0x47, nonce: Two(0, 3), until: Two(4, 0), tip: Two(0, 7), call: 1 };
	let me = who(0).unwrap();
	frame_system::Account::<T>::mutate(me, |a| a.nonce = 3);
	let info = DispatchInfo::default();
'''
B("xrpl-tx-blocks", "C44", DX, "a transaction whose last block is the one after the current one's predecessor, applied later than its last block", "a transaction is still good one block after the last block it names",
  [(XL, "	if <frame_system::Pallet<T>>::block_number() > max_block_number.into() {", "	if <frame_system::Pallet<T>>::block_number() > max_block_number.saturating_add(1).into() {")],
  PX + 'pub fn demo() {' + TXN + '''
	set_block(41);
	let f = fields(0, 9, s.data(), false);
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), RtCall::Other(1));
	assert!(c.validate_self_contained(&me.into(), &info, 100).unwrap().is_err());
}''')
B("xrpl-tx-fp-nonce", "C44", DX, "a holder of a futurepass whose transaction calls through it, applied a second time", "the nonce of a futurepass call is that of the futurepass and not of its holder, so it and his other transactions can be replayed",
  [(XL, "				tx_origin = T::AccountId::from(eoa);\n			}\n\n			// validate nonce signed extension using EOA\n			let validations: EOANonceValidation<T> = (CheckNonce::from(nonce.into()),);\n			SignedExtension::pre_dispatch(", "				if frame_system::Pallet::<T>::account_nonce(&tx_origin) == 0u32.into() {\n					tx_origin = T::AccountId::from(eoa);\n				}\n			}\n\n			// validate nonce signed extension using EOA\n			let validations: EOANonceValidation<T> = (CheckNonce::from(nonce.into()),);\n			SignedExtension::pre_dispatch(")],
  PX + 'pub fn demo() {' + TXN + '''
	let mut s = s; s.call = FP;
	frame_system::Account::<T>::mutate(acc(0), |a| a.nonce = 3);
	let f = fields(0, 9, s.data(), false);
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), RtCall::Other(FP));
	assert!(Call::<T>::apply_self_contained(RtCall::Xrpl(c), &acc(0).into(), &info, 100).is_some());
	assert!(frame_system::Account::<T>::get(me).nonce == 4);
}''')
B("xrpl-tx-tip", "C44", DX, "a transaction with a tip, validated with one balance and applied with it", "the tip a wallet signed is not charged when the transaction is applied, only when it is validated",
  [(XL, "				ChargeTransactionPayment::<T>::from(tip.into()),\n			);\n\n			let mut tx_origin = T::AccountId::from(*info);", "				ChargeTransactionPayment::<T>::from(0u64.max(tip / 2).into()),\n			);\n\n			let mut tx_origin = T::AccountId::from(*info);")],
  PX + 'pub fn demo() {' + TXN + '''
	let f = fields(0, 9, s.data(), false);
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), RtCall::Other(1));
	assert!(Call::<T>::apply_self_contained(RtCall::Xrpl(c), &me.into(), &info, 100).is_some());
	assert!(Money::get(me) == 1000 - 107);
}''')
B("xrpl-tx-last-memo", "C44", DX, "a transaction with two memos of the kind", "the last memo of the kind counts and not the first, so a transaction with two is refused or does what the other says",
  [(XT, "		for memo_elm in &self.memos {", "		for memo_elm in self.memos.iter().rev() {")],
  PX + 'pub fn demo() {' + TXN + '''
	let f = fields(0, 9, s.data(), true);
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), RtCall::Other(1));
	assert!(c.validate_self_contained(&me.into(), &info, 100).unwrap().is_ok());
}''')
B("xrpl-tx-ed-lax", "C44", DX, "a transaction of an Ed25519 key whose signature is of another message", "the memos of an Ed25519 transaction are not covered by its signature if the account's memo type is not lower case",
  [(XT, "		let encoded_message = encode_for_signing(&tx_common)?;\n\n		let pub_key = self.get_public_key()?;", "		let pub_key = self.get_public_key()?;\n		let mut tx_common = tx_common;\n		if let XrplPublicKey::ED25519(_) = pub_key {\n			tx_common.memos.retain(|m| !m.memo_type.eq(&xrpl_types::Blob::from_hex(\"45787472696E736963\").unwrap_or_default()));\n		}\n		let encoded_message = encode_for_signing(&tx_common)?;")],
  PX + 'pub fn demo() {' + TXN + '''
	let f = fields(0, 9, s.data(), false);
	signed_by(0, &f, &sig(0));
	let c = tx(&f, sig(0), RtCall::Other(1));
	assert!(c.validate_self_contained(&me.into(), &info, 100).unwrap().is_ok());
}''')
B("xrpl-tx-root-call", "C44", DX, "an origin other than none for the call, as a batch or a proxy makes it", "anybody can make the call as any XRPL account with an ordinary transaction, without that account's signature",
  [(XL, "			ensure_none(origin)?;", "			let _ = frame_system::ensure_signed_or_root(origin.clone()).map(|_| ()).or_else(|_| ensure_none(origin))?;")],
  PX + 'pub fn demo() {' + TXN + '''
	let f = fields(0, 9, s.data(), false);
	let c = tx(&f, vec![], RtCall::Other(1));
	assert!(RtCall::Xrpl(c).dispatch(RawOrigin::Signed(acc(1)).into()).is_err());
}''')
