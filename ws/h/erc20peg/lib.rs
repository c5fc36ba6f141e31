#![allow(non_snake_case)]
use ethabi::Token;
use frame_support::traits::Hooks;
use frame_support::weights::Weight;
use hrt::*;
use hrt::{konst, signed, sys};
use pallet_erc20_peg::types::*;
use pallet_erc20_peg::*;
use seed_pallet_common::EthereumEventSubscriber;
use sp_core::{bounded::WeakBoundedVec, H160, U256};
use sp_runtime::traits::AccountIdConversion;

sys!(T);
konst! {
	Pid: PalletId = PalletId(*b"py/erc20");
	Native: u32 = 1;
	StrLim: u32 = 8;
	MaxDelays: u32 = 8;
	MaxReady: u32 = 8;
}
impl pallet_erc20_peg::Config for T {
	type PegPalletId = Pid;
	type EthBridge = Rec;
	type MultiCurrency = Ledger;
	type RuntimeEvent = ();
	type WeightInfo = ();
	type NativeAssetId = Native;
	type StringLimit = StrLim;
	type MaxDelaysPerBlock = MaxDelays;
	type MaxReadyBlocks = MaxReady;
}
type Peg = Pallet<T>;
const ROOT: u32 = 1;
const TOK: u32 = 2;
/// Not mapped to any ERC-20.
const FREE: u32 = 3;
const NEW: u32 = 9;
fn eth(n: u8) -> H160 {
	H160([n; 20])
}
const EROOT: u8 = 0x21;
const ETOK: u8 = 0x22;
const PEG: u8 = 0x31;
const RPEG: u8 = 0x32;
fn vault() -> Acc {
	Pid::get().into_account_truncating()
}
fn setup() {
	for (a, e) in [(ROOT, EROOT), (TOK, ETOK)] {
		Erc20ToAssetId::<T>::insert(eth(e), a);
		AssetIdToErc20::<T>::insert(a, eth(e));
	}
	ContractAddress::<T>::put(eth(PEG));
	RootPegContractAddress::<T>::put(eth(RPEG));
	Next::put(NEW);
}
/// Arbitrary switches and payment delays.
fn switches() {
	DepositsActive::<T>::put(sx::bool());
	WithdrawalsActive::<T>::put(sx::bool());
	DepositsDelayActive::<T>::put(sx::bool());
	WithdrawalsDelayActive::<T>::put(sx::bool());
	for a in [ROOT, TOK] {
		if sx::bool() {
			PaymentDelay::<T>::insert(a, (sx::u128(), sx::u32()));
		}
	}
	NextDelayedPaymentId::<T>::put(sx::u64() >> 1);
}
/// Arbitrary balances of the accounts 0, 1 and the peg.
fn money(a: u32) {
	let s = sx::u128();
	let mut left = s;
	for w in [acc(0), acc(1), vault()] {
		let b = sx::u128();
		sx::assume(b <= left);
		left -= b;
		Ledger::set(a, &w, b);
	}
	Ledger::create(a, s);
}
#[derive(Clone, Copy, PartialEq)]
struct M {
	b: [u128; 3],
	s: u128,
}
fn snap(a: u32) -> M {
	M { b: [Ledger::bal(a, &acc(0)), Ledger::bal(a, &acc(1)), Ledger::bal(a, &vault())], s: Ledger::supply(a) }
}
fn ids(b: u32) -> Vec<u64> {
	DelayedPaymentSchedule::<T>::get(b).into_inner()
}
fn message(token: H160, amount: u128, to: H160) -> Vec<u8> {
	let mut m = vec![0u8; 12];
	m.extend_from_slice(&token.0);
	m.extend_from_slice(&[0u8; 16]);
	m.extend_from_slice(&amount.to_be_bytes());
	m.extend_from_slice(&[0u8; 12]);
	m.extend_from_slice(&to.0);
	m
}
fn eqb(a: &[u8], b: &[u8]) -> bool {
	a.len() == b.len() && a.iter().zip(b).fold(0u8, |x, (p, q)| x | (p ^ q)) == 0
}
/// The money side of a withdrawal.
fn taken(a: u32, m: M, x: u128) {
	let n = snap(a);
	let native = a == ROOT;
	sx::check(m.b[0] >= x && n.b[0] == m.b[0] - x && n.b[1] == m.b[1], "exactly the amount leaves the sender");
	sx::check(if native { n.b[2] == m.b[2] + x && n.s == m.s } else { n.b[2] == m.b[2] && n.s == m.s - x }, "the native token moves to the peg account, any other token is burnt");
}
#[no_mangle]
pub extern "C" fn h_withdraw() {
	setup();
	switches();
	let a = [ROOT, TOK, FREE][sx::choose(3) as usize];
	money(a);
	let now = sx::u32() >> 1;
	set_block(now);
	EthFail::put(sx::bool());
	let x = sx::u128();
	let to = H160(sx::bytes());
	let evm = sx::bool();
	let m = snap(a);
	let id = NextDelayedPaymentId::<T>::get();
	let delay = PaymentDelay::<T>::get(a);
	let r = with_layer(|| {
		if evm {
			Peg::do_withdrawal(acc(0), a, x, to, WithdrawCallOrigin::Evm)
		} else {
			Peg::withdraw(signed!(acc(0)), a, x, to).map(|_| None)
		}
	});
	let due = match delay {
		Some((min, d)) if WithdrawalsDelayActive::<T>::get() && min <= x => Some(d),
		_ => None,
	};
	match r {
		Ok(p) => {
			sx::check(WithdrawalsActive::<T>::get(), "nothing is withdrawn while withdrawals are paused");
			sx::check(a != FREE, "only tokens with an Ethereum counterpart are withdrawn");
			taken(a, m, x);
			let e = if a == ROOT { EROOT } else { ETOK };
			match due {
				None => {
					sx::reach("sent");
					let v = EthEvents::get();
					sx::check(v.len() == 1 && v[0].0 == vault() && v[0].1 == eth(if a == ROOT { RPEG } else { PEG }), "one message goes to the peg contract");
					sx::check(eqb(&v[0].2, &message(eth(e), x, to)), "the message states token, amount and beneficiary");
					sx::check(NextDelayedPaymentId::<T>::get() == id && !DelayedPayments::<T>::contains_key(id), "nothing is delayed");
					sx::check(!evm || p == Some(1), "the caller learns the proof id");
				},
				Some(d) => {
					sx::reach("delayed");
					sx::check(!evm, "a withdrawal through the EVM is never delayed");
					sx::check(EthEvents::get().is_empty(), "a delayed withdrawal is not sent yet");
					pending(id, now, d);
					match DelayedPayments::<T>::get(id) {
						Some(PendingPayment::Withdrawal((s, w))) => sx::check(s == acc(0) && w.token_address == eth(e) && w.amount == U256::from(x) && w.beneficiary == to, "the pending withdrawal is what was asked for"),
						_ => sx::check(false, "the withdrawal is pending"),
					}
				},
			}
		},
		Err(_) => {
			sx::reach("err");
			sx::check(snap(a) == m && EthEvents::get().is_empty() && NextDelayedPaymentId::<T>::get() == id && !DelayedPayments::<T>::contains_key(id), "a failed withdrawal changes nothing");
			let sender_ok = m.b[0] >= x && (a != ROOT || m.b[2].checked_add(x).is_some());
			sx::check(!(WithdrawalsActive::<T>::get() && a != FREE && sender_ok && if due.is_some() { !evm } else { !EthFail::get() }), "a withdrawal that can be made succeeds");
		},
	}
}
/// Payment `id` is scheduled once, after the delay and not in the current block.
fn pending(id: u64, now: u32, d: u32) {
	let when = now.saturating_add(if d == 0 { 1 } else { d });
	sx::check(NextDelayedPaymentId::<T>::get() == id + 1, "payment ids are used once");
	let v = ids(when);
	sx::check(v.len() == 1 && v[0] == id, "the payment is scheduled after the delay");
}
/// A deposit as it arrives from the bridge: any source, any bytes.
#[no_mangle]
pub extern "C" fn h_deposit() {
	setup();
	switches();
	money(ROOT);
	money(TOK);
	let (r0, t0) = (snap(ROOT), snap(TOK));
	let now = sx::u32() >> 1;
	set_block(now);
	let id = NextDelayedPaymentId::<T>::get();
	let n = [0usize, 31, 95, 96, 100][sx::choose(5) as usize];
	let data = sx::vec(n);
	let source = H160(sx::bytes());
	let (token, amount, to) = if n >= 96 {
		(H160::from_slice(&data[12..32]), U256::from_big_endian(&data[32..64]), H160::from_slice(&data[76..96]))
	} else {
		(eth(0), U256::from(0u8), eth(0))
	};
	let who = [acc(0), acc(1)];
	if n >= 96 {
		sx::assume(Acc::from(to) == who[0] || Acc::from(to) == who[1]);
	}
	let r = if Peg::verify_source(&source).is_ok() { Peg::on_event(&source, &data).map_err(|_| ()) } else { Err(()) };
	let (r1, t1) = (snap(ROOT), snap(TOK));
	let a = if token == eth(EROOT) { ROOT } else if token == eth(ETOK) { TOK } else { NEW };
	match r {
		Ok(_) => {
			sx::check(n >= 96, "incomplete messages are refused");
			sx::check(DepositsActive::<T>::get(), "nothing is deposited while deposits are paused");
			sx::check(source == eth(RPEG) || source == eth(PEG), "only the peg contracts deposit");
			sx::check(a != ROOT || source == eth(RPEG), "the native token comes from its own contract");
			sx::check(a != TOK || source == eth(PEG), "other tokens come from the peg contract");
			sx::check(amount < U256::from(u128::MAX), "the amount fits a balance");
			let x = amount.as_u128();
			let k = if Acc::from(to) == who[0] { 0 } else { 1 };
			let delay = if DepositsDelayActive::<T>::get() { PaymentDelay::<T>::get(a) } else { None };
			match delay {
				Some((min, d)) if min <= x => {
					sx::reach("delayed");
					sx::check(r1 == r0 && t1 == t0, "a delayed deposit pays nothing yet");
					pending(id, now, d);
					match DelayedPayments::<T>::get(id) {
						Some(PendingPayment::Deposit(w)) => sx::check(w.token_address == token && w.amount == amount && w.beneficiary == to, "the pending deposit is what arrived"),
						_ => sx::check(false, "the deposit is pending"),
					}
				},
				_ => {
					sx::check(NextDelayedPaymentId::<T>::get() == id, "nothing is delayed");
					let (m, n) = match a {
						ROOT => (r0, r1),
						TOK => (t0, t1),
						_ => (M { b: [0; 3], s: 0 }, snap(NEW)),
					};
					sx::check(n.b[k] == m.b[k] + x && n.b[1 - k] == m.b[1 - k], "the beneficiary receives exactly the deposit");
					if a == ROOT {
						sx::reach("native");
						sx::check(m.b[2] >= x && n.b[2] == m.b[2] - x && n.s == m.s, "native deposits are paid from the peg account");
					} else {
						sx::reach("minted");
						sx::check(n.b[2] == m.b[2] && n.s == m.s + x, "other deposits are minted");
					}
					if a == NEW {
						sx::reach("new");
						sx::check(Erc20ToAssetId::<T>::get(token) == Some(NEW) && AssetIdToErc20::<T>::get(NEW) == Some(token) && Next::get() == NEW + 1, "an unknown token gets an asset of its own");
					} else {
						sx::check(Next::get() == NEW, "a known token gets no second asset");
					}
					if a != TOK {
						sx::check(t1 == t0, "other assets are untouched");
					}
					if a != ROOT {
						sx::check(r1 == r0, "other assets are untouched");
					}
				},
			}
		},
		Err(_) => {
			sx::reach("err");
			sx::check(r1 == r0 && t1 == t0 && NextDelayedPaymentId::<T>::get() == id && !DelayedPayments::<T>::contains_key(id) && Next::get() == NEW, "a refused deposit changes nothing");
		},
	}
}
/// One of the accounts 0..k is owed `x` by payment i: a deposit of TOK, or a withdrawal already paid for.
fn owe(i: u64, dep: bool) -> u128 {
	let x = sx::u128() >> 8;
	let p = if dep {
		PendingPayment::Deposit(Erc20DepositEvent { token_address: eth(ETOK), amount: x.into(), beneficiary: acc(i as u8).into() })
	} else {
		PendingPayment::Withdrawal((acc(i as u8), WithdrawMessage { token_address: eth(ETOK), amount: x.into(), beneficiary: acc(i as u8).into() }))
	};
	DelayedPayments::<T>::insert(i, p);
	x
}
fn sched(b: u32, v: &[u64]) {
	DelayedPaymentSchedule::<T>::insert(b, WeakBoundedVec::force_from(v.to_vec(), None));
}
/// Every payment is either done exactly once and forgotten, or still pending and findable.
fn done(i: u64, dep: bool, x: u128, ready: &[u32]) -> bool {
	let to = acc(i as u8);
	let paid = if dep { Ledger::bal(TOK, &to) } else { 0 };
	let msgs = EthEvents::get().iter().filter(|e| eqb(&e.2, &message(eth(ETOK), x, to.into()))).count();
	let here = DelayedPayments::<T>::contains_key(i);
	let listed = ready.iter().map(|b| ids(*b).iter().filter(|j| **j == i).count()).sum::<usize>();
	if here {
		sx::check(paid == 0 && msgs == 0, "a pending payment is not made yet");
		sx::check(listed == 1, "a pending payment stays scheduled once");
	} else {
		sx::check(if dep { paid == x && msgs == 0 } else { msgs == 1 }, "a payment that is no longer pending was made, once");
		sx::check(listed == 0, "a payment made is no longer scheduled");
	}
	!here
}
#[no_mangle]
pub extern "C" fn h_idle() {
	setup();
	Ledger::create(TOK, 0);
	let kinds = [sx::bool(), sx::bool(), sx::bool(), true];
	let x: Vec<u128> = (0..4).map(|i| owe(i, kinds[i as usize])).collect();
	// three payments due in two blocks, one still in the future
	let first = sx::choose(4) as usize;
	sched(5, &[0, 1, 2][..first]);
	sched(7, &[0, 1, 2][first..]);
	sched(20, &[3]);
	ReadyBlocks::<T>::put(frame_support::BoundedVec::truncate_from(vec![5u32, 7]));
	set_block(10);
	let w = sx::u64();
	let used = Peg::on_idle(10, Weight::from_parts(w, u64::MAX));
	sx::check(used.ref_time() <= w, "idle processing stays within the weight it was given");
	let d: Vec<bool> = (0..3).map(|i| done(i, kinds[i as usize], x[i as usize], &[5, 7])).collect();
	sx::check(!done(3, true, x[3], &[20]), "a payment is not made before it is due");
	let ready = ReadyBlocks::<T>::get();
	for (b, r) in [(5u32, 0..first), (7, first..3)] {
		if r.clone().any(|i| !d[i]) {
			sx::check(ready.iter().filter(|y| **y == b).count() == 1, "a block with pending payments stays ready");
		}
	}
	sx::check(!(d[2] && !d[1]) && !(d[1] && !d[0]), "payments are made in order");
	if d[0] && d[1] && d[2] {
		sx::reach("all");
	} else {
		sx::reach("some");
		sx::check(w < 25_000_000 + 3 * (8 * 25_000_000 + 10 * 100_000_000), "payments are made when there is room for them");
	}
	// whatever was left is made when there is room
	Peg::on_idle(11, Weight::from_parts(u64::MAX >> 8, u64::MAX));
	for i in 0..3 {
		sx::check(done(i, kinds[i as usize], x[i as usize], &[5, 7]), "nothing is left behind");
	}
	sx::check(ReadyBlocks::<T>::get().is_empty(), "no block stays ready for nothing");
}
/// A withdrawal and a deposit that are delayed are made exactly in the block they are due, once.
#[no_mangle]
pub extern "C" fn h_history() {
	setup();
	DepositsActive::<T>::put(true);
	WithdrawalsActive::<T>::put(true);
	let (d, b) = (sx::choose(4) as u32, sx::u128() >> 1);
	Ledger::create(TOK, b);
	Ledger::set(TOK, &acc(1), b);
	let min = sx::u128();
	PaymentDelay::<T>::insert(TOK, (min, d));
	let x = sx::u128() >> 2;
	sx::assume(min <= x && x <= b);
	set_block(10);
	Peg::on_initialize(10);
	let dep = sx::bool();
	let id = NextDelayedPaymentId::<T>::get();
	let (to, s0) = if dep {
		let data = message(eth(ETOK), x, acc(0).into());
		sx::check(Peg::on_event(&eth(PEG), &data).is_ok(), "accepted");
		(acc(0), 0)
	} else {
		sx::check(Peg::withdraw(signed!(acc(1)), TOK, x, acc(0).into()).is_ok(), "accepted");
		(acc(0), 1)
	};
	let _ = (to, s0);
	let due = 10 + if d == 0 { 1 } else { d };
	Peg::on_idle(10, Weight::from_parts(u64::MAX >> 8, 0));
	for n in 11..=15u32 {
		let early = if dep { Ledger::bal(TOK, &acc(0)) == 0 } else { EthEvents::get().is_empty() };
		sx::check(n > due || early, "a delayed payment is not made early");
		set_block(n);
		Peg::on_initialize(n);
		Peg::on_idle(n, Weight::from_parts(u64::MAX >> 8, 0));
	}
	sx::reach("ok");
	sx::check(!DelayedPayments::<T>::contains_key(id), "a delayed payment is made when it is due");
	sx::check(if dep { Ledger::bal(TOK, &acc(0)) == x && Ledger::supply(TOK) == b + x } else { EthEvents::get().len() == 1 && eqb(&EthEvents::get()[0].2, &message(eth(ETOK), x, acc(0).into())) && Ledger::supply(TOK) == b - x }, "a delayed payment is made once");
}
/// Root may make a pending payment early, once.
#[no_mangle]
pub extern "C" fn h_claim() {
	setup();
	Ledger::create(TOK, 0);
	let kinds = [sx::bool(), sx::bool()];
	let x: Vec<u128> = (0..2).map(|i| owe(i, kinds[i as usize])).collect();
	sched(5, &[0, 1]);
	let (b, i) = (sx::u32(), sx::u64());
	let root = sx::bool();
	let o = || if root { vstub::system::RawOrigin::Root.into() } else { signed!(any_acc()) };
	let r = with_layer(|| Peg::claim_delayed_payment(o(), b, i));
	let d = [done(0, kinds[0], x[0], &[5]), done(1, kinds[1], x[1], &[5])];
	if r.is_ok() {
		sx::reach("ok");
		sx::check(root && b == 5 && (i == 0 && d == [true, false] || i == 1 && d == [false, true]), "root claims the stated payment");
		sx::check(with_layer(|| Peg::claim_delayed_payment(o(), b, i)).is_err(), "a payment is claimed once");
	} else {
		sx::reach("err");
		sx::check(d == [false, false], "a refused claim pays nothing");
		sx::check(!(root && b == 5 && i < 2), "root can claim a pending payment");
	}
}
/// The switches and addresses are root's.
#[no_mangle]
pub extern "C" fn h_admin() {
	setup();
	switches();
	let root = sx::bool();
	let o = || if root { vstub::system::RawOrigin::Root.into() } else { signed!(any_acc()) };
	let all = || (DepositsActive::<T>::get(), WithdrawalsActive::<T>::get(), DepositsDelayActive::<T>::get(), WithdrawalsDelayActive::<T>::get());
	let adr = || (ContractAddress::<T>::get(), RootPegContractAddress::<T>::get());
	let map = |e: H160, a: u32| (Erc20ToAssetId::<T>::get(e), AssetIdToErc20::<T>::get(a));
	let s = all();
	let c = adr();
	let p = PaymentDelay::<T>::get(TOK);
	let (on, e, a) = (sx::bool(), H160(sx::bytes()), [TOK, FREE][sx::choose(2) as usize]);
	let m = map(e, a);
	let k = sx::choose(8);
	let r = with_layer(|| match k {
		0 => Peg::activate_deposits(o(), on),
		1 => Peg::activate_withdrawals(o(), on),
		2 => Peg::activate_deposits_delay(o(), on),
		3 => Peg::activate_withdrawals_delay(o(), on),
		4 => Peg::set_erc20_peg_address(o(), e),
		5 => Peg::set_root_peg_address(o(), e),
		6 => Peg::set_erc20_asset_map(o(), a, e),
		_ => Peg::set_payment_delay(o(), TOK, 77, 5),
	});
	sx::check(r.is_ok() == root, "exactly root administers the peg");
	let mut w = s;
	let mut c2 = c;
	if root {
		sx::reach("ok");
		match k {
			0 => w.0 = on,
			1 => w.1 = on,
			2 => w.2 = on,
			3 => w.3 = on,
			4 => c2.0 = e,
			5 => c2.1 = e,
			_ => {},
		}
	} else {
		sx::reach("err");
	}
	sx::check(all() == w && adr() == c2, "the setting changes and no other");
	sx::check(map(e, a) == if root && k == 6 { (Some(a), Some(e)) } else { m }, "the token map changes only when set");
	sx::check(PaymentDelay::<T>::get(TOK) == if root && k == 7 { Some((77, 5)) } else { p }, "the delay changes only when set");
}
