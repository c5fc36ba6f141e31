exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
V = 'pallet/vortex-distribution/src/lib.rs'
VD = ["pallet-vortex-distribution", "pallet-staking"]
B("vtx-reregister-lower", "C20", VD, "registering a lower reward for an account that already has one", "more vortex is minted than rewards are paid",
  [(V, 'total_vortex.saturating_sub(entry.0).saturating_add(*amount);', 'total_vortex.saturating_add(amount.saturating_sub(entry.0));')],
  VTX + """pub fn demo() {
	assets();
	VtxDistStatuses::<T>::insert(5, Enabled);
	assert!(V::register_rewards(by(0), 5, bv(vec![(acc(0), 10), (acc(1), 7)])).is_ok());
	assert!(V::register_rewards(by(0), 5, bv(vec![(acc(0), 4)])).is_ok());
	assert_eq!(TotalVortex::<T>::get(5), 11);
}
""")
B("vtx-batch-edge", "C20", VD, "more accounts than one payout batch", "the last account of a batch is paid twice",
  [(V, 'VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {\n\t\t\t\t\t\t*entry = (entry.0, true);\n\t\t\t\t\t});', 'if count < T::PayoutBatchSize::get() {\n\t\t\t\t\t\tVtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {\n\t\t\t\t\t\t\t*entry = (entry.0, true);\n\t\t\t\t\t\t});\n\t\t\t\t\t}')],
  VTX + """pub fn demo() {
	assets();
	BatchV::put(1);
	VtxDistStatuses::<T>::insert(5, Enabled);
	assert!(V::register_rewards(by(0), 5, bv((0..4).map(|i| (acc(i), 10)).collect())).is_ok());
	Ledger::set(VTX, &vault(), 1000);
	assert!(V::trigger_vtx_distribution(by(0), 5).is_ok() && V::start_vtx_dist(by(0), 5).is_ok());
	for _ in 0..12 { let _ = V::pay_unsigned(none(), 5, 0); }
	for i in 0..4 {
		assert_eq!(Ledger::bal(VTX, &acc(i)), 10);
		assert!(VtxDistOrderbook::<T>::get(5, acc(i)).1);
	}
}
""")
B("vtx-redeem-float", "C21", VD, "redeeming while unpaid rewards still lie in the vault", "a redeemer gets more than its share of the vault",
  [(V, 'let total_vortex = T::MultiCurrency::total_issuance(T::VtxAssetId::get());\n\t\t\tlet vortex_balance = vortex_token_amount;', 'let total_vortex = T::MultiCurrency::total_issuance(T::VtxAssetId::get())\n\t\t\t\t.saturating_sub(T::MultiCurrency::balance(T::VtxAssetId::get(), &vault_account));\n\t\t\tlet vortex_balance = vortex_token_amount;')],
  VTX + """pub fn demo() {
	assets();
	VtxDistStatuses::<T>::insert(5, Done);
	Ledger::create(VTX, 100);
	Ledger::set(VTX, &acc(0), 10);
	Ledger::set(VTX, &vault(), 50);
	Ledger::set(10, &vault(), 1000);
	AssetPrices::<T>::insert(5, 10, 1);
	assert!(with_layer(|| V::redeem_tokens_from_vault(signed!(acc(0)), 5, 10)).is_ok());
	assert_eq!(Ledger::bal(10, &acc(0)), 100);
}
""")
B("vtx-redeem-disabled", "C21", VD, "redeeming from a disabled distribution", "the vault is emptied before the distribution is done",
  [(V, 'ensure!(VtxDistStatuses::<T>::get(id) == VtxDistStatus::Done,', 'ensure!(matches!(VtxDistStatuses::<T>::get(id), VtxDistStatus::Done | VtxDistStatus::Disabled),')],
  VTX + """pub fn demo() {
	assets();
	VtxDistStatuses::<T>::insert(5, Disabled);
	Ledger::set(VTX, &acc(0), 10);
	Ledger::set(10, &vault(), 1000);
	AssetPrices::<T>::insert(5, 10, 1);
	assert!(with_layer(|| V::redeem_tokens_from_vault(signed!(acc(0)), 5, 10)).is_err());
}
""")
C = 'pallet/crowdsale/src/lib.rs'; CI = 'pallet/crowdsale/src/impls.rs'
CD = ["pallet-crowdsale"]
B("crowd-end-full", "C22", CD, "a third sale ending in the same block", "the sale is enabled but never ends, and its funds stay in the vault",
  [(C, 'sales.try_push(sale_id).map_err(|_| Error::<T>::TooManySales)?;', 'let _ = sales.try_push(sale_id);')],
  CROWD + """pub fn demo() {
	base();
	SaleInfo::<T>::insert(2, info(SaleStatus::Pending(1), 5, 0, 0));
	SaleEndBlocks::<T>::insert(6, BoundedVec::truncate_from(vec![10u64, 11]));
	assert!(with_layer(|| C::enable(signed!(admin()), 2)).is_err());
}
""")
B("crowd-failed-stuck", "C22", CD, "a sale ending while the distribution queue is full", "the sale can be distributed by nobody",
  [(CI, 'sale_info.status = SaleStatus::DistributionFailed(now);', 'sale_info.status = SaleStatus::Distributing(now, Balance::default());')],
  CROWD + """pub fn demo() {
	start(100, 5, &[50, 60]);
	SaleDistribution::<T>::put(BoundedVec::truncate_from(vec![50u64, 51, 52]));
	C::on_initialize(9);
	SaleDistribution::<T>::put(BoundedVec::truncate_from(vec![50u64]));
	assert!(with_layer(|| C::try_force_distribution(signed!(acc(0)), 2)).is_ok());
}
""")
B("crowd-claim-other", "C23", CD, "the last participant claiming while another sale is first in the queue", "another sale's participants never get their vouchers",
  [(C, 'sales.retain(|&id| id != sale_id);', 'if !sales.is_empty() {\n\t\t\t\t\tsales.remove(0);\n\t\t\t\t}')],
  CROWD + """pub fn demo() {
	start(100, 5, &[50]);
	SaleDistribution::<T>::put(BoundedVec::truncate_from(vec![50u64]));
	C::on_initialize(9);
	assert!(C::claim_voucher(signed!(acc(0)), 2).is_ok());
	assert_eq!(SaleDistribution::<T>::get().into_inner(), vec![50]);
}
""")
B("crowd-claim-last", "C23", CD, "claiming when one other participant is left", "the last participant's vouchers go to the admin",
  [(C, 'if payout_complete || SaleParticipation::<T>::iter_prefix(sale_id).next().is_none() {', 'if payout_complete || SaleParticipation::<T>::iter_prefix(sale_id).count() <= 1 {')],
  CROWD + """pub fn demo() {
	start(100, 5, &[50, 60]);
	C::on_initialize(9);
	assert!(C::claim_voucher(signed!(acc(1)), 2).is_ok());
	assert!(C::claim_voucher(signed!(acc(0)), 2).is_ok());
	assert_eq!((Ledger::bal(VOU, &acc(0)), Ledger::bal(VOU, &acc(1))), (50 * M / 5, 60 * M / 5));
}
""") if False else None
F = 'pallet/futurepass/src/lib.rs'
FD = ["pallet-futurepass"]
B("fp-delegate-evicts", "C24", FD, "a delegate removing another delegate", "a delegate can remove the other delegates",
  [(F, 'is_owner || caller == futurepass || caller == delegate,', 'is_owner || caller == futurepass || T::Proxy::exists(&futurepass, &caller, None),')],
  FP + """pub fn demo() {
	let f = setup();
	assert!(with_layer(|| Pallet::<T>::unregister_delegate(signed!(acc(1)), f, acc(2))).is_err());
	assert!(with_layer(|| Pallet::<T>::unregister_delegate(signed!(acc(2)), f, acc(2))).is_ok());
}
""")
B("fp-delegate-transfers", "C24", FD, "a delegate calling transfer_futurepass through the futurepass", "a delegate can take the futurepass over",
  [(F, "\t\t\t\t| Some(Call::transfer_futurepass { .. }) => {", " => {")],
  FP + """pub fn demo() {
	let f = setup();
	Black::put(9);
	let c = Call::transfer_futurepass { current_owner: acc(0), new_owner: Some(acc(1)) };
	assert!(with_layer(|| Pallet::<T>::proxy_extrinsic(signed!(acc(1)), f, Box::new(RtCall(Some(c), 3)))).is_err());
}
""")
MM = 'pallet/maintenance-mode/src/lib.rs'
MD = ["pallet-maintenance-mode"]
B("maint-account-masks", "C25", MD, "a blocked pallet while some account is blocked too", "the block of the pallet has no effect",
  [(MM, 'if BlockedPallets::<T>::contains_key(pallet_name) {', 'if BlockedPallets::<T>::contains_key(pallet_name)\n\t\t\t&& BlockedAccounts::<T>::iter().next().is_none()\n\t\t{')],
  MAINT + """pub fn demo() {
	assert!(Pallet::<T>::block_pallet(root(), bn(b"Nft"), true).is_ok());
	BlockedAccounts::<T>::insert(acc(4), true);
	assert!(paused(b"Nft", b"mint"));
}
""")
B("maint-unblock-all", "C25", MD, "unblocking a pallet while a call of another pallet is blocked", "other blocks are lifted",
  [(MM, 'false => BlockedPallets::<T>::remove(&pallet_name),', 'false => {\n\t\t\t\t\tBlockedPallets::<T>::remove(&pallet_name);\n\t\t\t\t\tlet _ = BlockedCalls::<T>::drain().count();\n\t\t\t\t},')],
  MAINT + """pub fn demo() {
	assert!(Pallet::<T>::block_call(root(), bn(b"Dex"), bn(b"swap"), true).is_ok());
	assert!(Pallet::<T>::block_pallet(root(), bn(b"Nft"), false).is_ok());
	assert!(paused(b"Dex", b"swap"));
}
""")
X = 'pallet/xrpl-bridge/src/lib.rs'
XD = ["pallet-xrpl-bridge", "xrpl-codec"]
B("xrpl-settled-back", "C26", XD, "a transaction of an older ledger settling last", "the highest settled ledger moves back and the submission window with it",
  [(X, 'if highest_settled_ledger_index < ledger_index as u32 {', 'if highest_settled_ledger_index != ledger_index as u32 {')],
  XRPL + """pub fn demo() {
	Ledger::create(XRP, 100);
	HighestSettledLedgerIndex::<T>::put(50);
	ProcessXRPTransactionDetails::<T>::insert(hx(1), (40, xtx(1, 7), acc(3)));
	ProcessXRPTransaction::<T>::insert(9, BoundedVec::try_from(vec![hx(1)]).ok().unwrap());
	Pallet::<T>::on_initialize(9);
	assert_eq!((Ledger::bal(XRP, &acc(1)), HighestSettledLedgerIndex::<T>::get()), (7, 50));
}
""")
B("xrpl-prune-window", "C26", XD, "pruning when the window's start is right at the pruning mark", "a ledger within the window is pruned and its transactions can be relayed again",
  [(X, 'let current_end = current_end.min(max_end);', 'let current_end = current_end.max(highest_pruned_index.saturating_add(1)).min(max_end);')],
  XRPL + """pub fn demo() {
	HighestPrunedLedgerIndex::<T>::put(10);
	HighestSettledLedgerIndex::<T>::put(15);
	SubmissionWindowWidth::<T>::put(5);
	SettledXRPTransactionDetails::<T>::insert(10, BoundedVec::try_from(vec![hx(1)]).ok().unwrap());
	ProcessXRPTransactionDetails::<T>::insert(hx(1), (10, xtx(1, 7), acc(3)));
	Pallet::<T>::clear_storages(Weight::from_parts(1 << 60, 0));
	assert!(ProcessXRPTransactionDetails::<T>::contains_key(hx(1)));
}
""")
B("xrpl-delay-equal", "C27", XD, "a withdrawal of exactly the threshold", "it is not delayed",
  [(X, 'if amount >= payment_threshold {', 'if amount > payment_threshold {')],
  XRPL + """pub fn demo() {
	door();
	Ledger::create(XRP, 1000);
	Ledger::set(XRP, &acc(0), 500);
	PaymentDelay::<T>::insert(XRP, (100, 4));
	assert!(with_layer(|| Pallet::<T>::withdraw(signed!(acc(0)), XRP, 100, H160([3; 20]), None)).is_ok());
	assert!(Sent::get().is_empty());
}
""")
B("xrpl-delayed-lost", "C27", XD, "a block's delayed withdrawals not all fitting into the remaining weight", "a withdrawal is dropped although it was paid for",
  [(X, 'let remaining_payment_ids = delayed_payment_ids[max_to_clear..].to_vec();', 'let remaining_payment_ids =\n\t\t\t\t\tdelayed_payment_ids[(max_to_clear + 1).min(delayed_payment_ids.len())..].to_vec();')],
  XRPL + """pub fn demo() {
	door();
	NextDelayProcessBlock::<T>::put(4);
	for id in [1u64, 2] {
		let tx = WithdrawTransaction::XRP(XrpWithdrawTransaction { tx_fee: 3, tx_nonce: 0, tx_ticket_sequence: id as u32, amount: 1000, destination: H160([3; 20]) });
		DelayedPayments::<T>::insert(id, DelayedWithdrawal { sender: acc(0), destination_tag: None, withdraw_tx: tx });
	}
	DelayedPaymentSchedule::<T>::insert(4, BoundedVec::try_from(vec![1u64, 2]).ok().unwrap());
	let mut w = 0u64;
	while Sent::get().len() < 2 && w < 2_000_000_000 {
		w += 10_000_000;
		for _ in 0..2 { Pallet::<T>::process_delayed_payments(4, Weight::from_parts(w, 0)); }
	}
	assert_eq!(Sent::get().len(), 2);
}
""")
B("xrpl-next-behind", "C28", XD, "a next allocation that starts behind the ticket in use", "tickets that were used already are allocated again",
  [(X, 'if start_ticket_sequence < current_ticket_sequence\n\t\t\t\t|| start_ticket_sequence < current_params.start_sequence\n', 'if start_ticket_sequence < current_params.start_sequence\n')],
  XRPL + """pub fn demo() {
	door();
	Relayer::<T>::insert(acc(3), true);
	DoorTicketSequence::<T>::insert(XRPLDoorAccount::Main, 8);
	assert!(with_layer(|| Pallet::<T>::set_ticket_sequence_next_allocation(signed!(acc(3)), XRPLDoorAccount::Main, 6, 10)).is_err());
}
""")
