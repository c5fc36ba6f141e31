exec(open("/verif/tools/bugs/pre.py").read())
BUGS = []
def B(id, prop, deps, needs, breaks, edits, demo): BUGS.append(dict(id=id, property=prop, deps=deps, needs=needs, breaks=breaks, edits=edits, demo=demo))
X = "pallet/assets-ext/src/lib.rs"
I = "pallet/assets-ext/src/impls.rs"
AD = ["pallet-assets-ext", "pallet-assets", "pallet-balances"]
B("aex-release-others", "C11", AD, "holds of two pallets on one account, one of them released in full", "the other pallet's hold disappears while its money stays in the vault",
  [(X, "\t\t\t.map(|_| ())?;\n\n\t\t\tif holds.is_empty() {", "\t\t\t.map(|_| ())?;\n\n\t\t\tif decreased_hold.is_zero() {")],
  AEX + """pub fn demo() {
	mk(2, 1, &[1000]);
	Ext::place_hold(P[0], &acc(0), 2, 300).unwrap();
	Ext::place_hold(P[1], &acc(0), 2, 400).unwrap();
	Ext::release_hold(P[0], &acc(0), 2, 300).unwrap();
	assert_eq!((hold(0, &acc(0), 2), hold(1, &acc(0), 2)), (0, 400));
}
""")
B("aex-spend-self", "C11", AD, "a spend that pays part of the hold back to its holder", "the part paid back stays recorded as held, so the vault no longer backs every hold",
  [(X, "\t\tlet total_spend = spends.iter().map(|x| x.1).sum::<Balance>();", "\t\tlet total_spend = spends.iter().filter(|x| &x.0 != who).map(|x| x.1).sum::<Balance>();")],
  AEX + """pub fn demo() {
	mk(2, 1, &[1000, 1000]);
	Ext::place_hold(P[0], &acc(0), 2, 300).unwrap();
	Ext::place_hold(P[0], &acc(1), 2, 300).unwrap();
	Ext::spend_hold(P[0], &acc(0), 2, &[(acc(2), 100), (acc(0), 50)]).unwrap();
	assert_eq!(hold(0, &acc(0), 2), 150);
	assert_eq!(Ext::balance(2, &vault()), hold(0, &acc(0), 2) + hold(0, &acc(1), 2));
}
""")
B("aex-fee-besteffort", "C12", AD, "a fee withdrawal larger than the payer's balance", "the withdrawal succeeds with an imbalance of more than was taken: refunds create money",
  [(I, "\t\t\tPrecision::Exact,\n\t\t\tpreservation,", "\t\t\tPrecision::BestEffort,\n\t\t\tpreservation,")],
  AEX + """pub fn demo() {
	mk(2, 1, &[1000, 1000]);
	assert!(Xrp::withdraw(&acc(0), 1500, WithdrawReasons::all(), ExistenceRequirement::AllowDeath).is_err());
	assert_eq!(Ext::balance(2, &acc(0)), 1000);
}
""")
B("aex-keepalive-native", "C12", AD, "a keep-alive transfer of the whole native balance", "a keep-alive transfer kills the sending account",
  [(X, "\t\t\t\tdest,\n\t\t\t\tamount,\n\t\t\t\tpreservation,\n\t\t\t)\n\t\t} else {\n\t\t\t// Transfers with 0", "\t\t\t\tdest,\n\t\t\t\tamount,\n\t\t\t\tif amount > Self::minimum_balance(asset_id) { Preservation::Expendable } else { preservation },\n\t\t\t)\n\t\t} else {\n\t\t\t// Transfers with 0")],
  AEX + """pub fn demo() {
	mk(1, 1, &[1000, 1000]);
	assert!(Ext::transfer(signed!(acc(0)), 1, acc(1), 1000, true).is_err());
	assert!(Ext::transfer(signed!(acc(0)), 1, acc(1), 999, true).is_ok());
}
""")
