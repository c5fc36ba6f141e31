#![allow(non_snake_case)]
use frame_support::traits::{Get, Hooks};
use frame_support::weights::Weight;
use hrt::*;
use hrt::{own_call, prefix, signed, sys};
use pallet_migration::*;
use seed_pallet_common::Migrator;
use seed_primitives::migration::{MigrationStep, MigrationStepResult};
use vstub::system::RawOrigin;

sys!(T, RtCall);
own_call!(T, RtCall, Call<T>);
prefix!(PDone);
prefix!(PFin);
/// The items that were converted, in order, and how often the migration finished.
type Done = StorageValue<PDone, Vec<u8>, ValueQuery>;
type Fin = StorageValue<PFin, u32, ValueQuery>;
/// How many items there are, whether the storage already has the new version,
/// and the weights.
static mut ITEMS: u8 = 0;
static mut VERSION: bool = false;
static mut STEP: (u64, u64) = (0, 0);
static mut BASE: (u64, u64) = (0, 0);
static mut MAX: (u64, u64) = (0, 0);
fn w(x: (u64, u64)) -> Weight {
	Weight::from_parts(x.0, x.1)
}
pub struct Maximum;
impl frame_support::traits::Get<Weight> for Maximum {
	fn get() -> Weight {
		unsafe { w(MAX) }
	}
}
pub struct Weights;
impl WeightInfo for Weights {
	fn migrate() -> Weight {
		unsafe { w(BASE) }
	}
	fn current_migration_step() -> Weight {
		Weight::zero()
	}
	fn enable_migration() -> Weight {
		Weight::zero()
	}
	fn set_block_delay() -> Weight {
		Weight::zero()
	}
	fn set_block_limit() -> Weight {
		Weight::zero()
	}
}
/// A map of `ITEMS` items, converted one after the other.
pub struct Items;
impl MigrationStep for Items {
	const TARGET_VERSION: u16 = 1;
	fn version_check() -> bool {
		unsafe { VERSION }
	}
	fn on_complete() {
		Fin::mutate(|n| *n += 1);
	}
	fn max_step_weight() -> Weight {
		unsafe { w(STEP) }
	}
	fn step(last_key: Option<Vec<u8>>) -> MigrationStepResult {
		let (r, p) = (sx::u64(), sx::u64());
		let max = unsafe { STEP };
		sx::assume((r <= max.0) & (p <= max.1));
		let k = last_key.map_or(0, |k| k[0] + 1);
		if k < unsafe { ITEMS } {
			Done::mutate(|d| d.push(k));
			MigrationStepResult::continue_step(Weight::from_parts(r, p), vec![k])
		} else {
			MigrationStepResult::finish_step(Weight::from_parts(r, p))
		}
	}
}
impl Config for T {
	type RuntimeEvent = ();
	type CurrentMigration = Items;
	type MaxMigrationWeight = Maximum;
	type WeightInfo = Weights;
}
fn pair() -> (u64, u64) {
	(sx::u64(), sx::u64())
}
/// Weights of this chain: none is near the limit of 64 bits.
fn weights() {
	let ok = |x: (u64, u64)| (x.0 < 1 << 60) & (x.1 < 1 << 60);
	let (s, b, m) = (pair(), pair(), pair());
	sx::assume(ok(s) & ok(b) & ok(m));
	// the overhead of a block covers reading the state
	sx::assume(b.0 >= 1_000_000_000);
	unsafe {
		STEP = s;
		BASE = b;
		MAX = m;
	}
}
/// A state of the pallet; the step the migration has reached.
fn state(items: u8) -> (MigrationStatus, Option<u8>) {
	unsafe {
		ITEMS = items;
		VERSION = sx::bool();
	}
	MigrationEnabled::<T>::put(sx::bool());
	if sx::bool() {
		let d = sx::u32();
		sx::assume(d > 1);
		BlockDelay::<T>::put(d);
	}
	let n = sx::u32();
	sx::assume(n > 0);
	BlockLimit::<T>::put(n);
	let at = match sx::choose(items as u64 + 1) {
		0 => None,
		k => Some(k as u8 - 1),
	};
	let st = match sx::choose(3) {
		0 => MigrationStatus::NoMigrationInProgress,
		1 => MigrationStatus::Completed,
		_ => {
			let s = sx::u32();
			// each step that was done left its item behind
			sx::assume(at.is_some() | (s == 0));
			MigrationStatus::InProgress { steps_done: s }
		},
	};
	Status::<T>::put(st.clone());
	if let Some(k) = at {
		LastKey::<T>::put(vec![k]);
	}
	(st, at)
}
type Pace = (bool, Option<u32>, u32);
fn pace() -> Pace {
	(MigrationEnabled::<T>::get(), BlockDelay::<T>::get(), BlockLimit::<T>::get())
}
fn running(s: &MigrationStatus) -> bool {
	matches!(s, MigrationStatus::InProgress { .. })
}
/// One idle hook of a block.
#[no_mangle]
pub extern "C" fn h_idle() {
	weights();
	let items = sx::choose(5) as u8;
	let (st, at) = state(items);
	let block = sx::u32();
	let (en, delay, limit) = (MigrationEnabled::<T>::get(), BlockDelay::<T>::get(), BlockLimit::<T>::get());
	sx::assume(limit <= 5);
	let rem = pair();
	let lim = w(rem).min(Maximum::get());
	let used = Pallet::<T>::on_idle(block, w(rem));
	sx::check(pace() == (en, delay, limit), "only governance paces a migration");
	let done = Done::get();
	let before = if let MigrationStatus::InProgress { steps_done } = st { steps_done } else { 0 };
	// a key that an abandoned migration left behind is not one of this migration
	let from = if before == 0 { 0 } else { at.map_or(0, |k| k + 1) };
	for (i, d) in done.iter().enumerate() {
		sx::check(*d == from + i as u8, "every item is converted, each once and in its turn");
	}
	let n = done.len() as u32;
	let fin = Fin::get();
	sx::check(Weights::migrate().saturating_add(Items::max_step_weight()).any_gt(lim) || used.all_lte(lim), "no more weight is used than the block has left");
	if n == 0 && fin == 0 {
		sx::reach("nothing done");
		sx::check(Status::<T>::get() == st && LastKey::<T>::get() == at.map(|k| vec![k]), "a block without a step changes nothing");
		let due = delay.map_or(true, |d| block % d == 0);
		let fits = Weights::migrate().saturating_add(Items::max_step_weight()).all_lt(lim);
		sx::check(!running(&st) || !en || !due || !fits, "a migration that is due goes on");
		return;
	}
	sx::check(used.all_lte(lim), "no more weight than the block has left is used for steps");
	sx::check(running(&st), "only a migration that was started runs");
	sx::check(en, "a paused migration rests");
	sx::check(delay.map_or(true, |d| block % d == 0), "blocks in between are free");
	sx::check(n + fin <= limit, "no more items than the limit of a block");
	if fin > 0 {
		sx::reach("completed");
		sx::check(fin == 1 && from + n as u8 == items, "it is complete once all items are");
		sx::check(Status::<T>::get() == MigrationStatus::Completed, "complete");
		sx::check(LastKey::<T>::get().is_none(), "nothing is left of it");
		sx::check(Pallet::<T>::ensure_migrated().is_ok(), "the others may go on");
	} else {
		sx::reach("some steps");
		sx::check(Status::<T>::get() == MigrationStatus::InProgress { steps_done: before.saturating_add(n) }, "the steps are counted");
		sx::check(LastKey::<T>::get() == Some(vec![from + n as u8 - 1]), "the next block goes on from here");
		sx::check(Pallet::<T>::ensure_migrated().is_err(), "the others wait");
	}
}
/// Two blocks with an upgrade of the runtime in between.
#[no_mangle]
pub extern "C" fn h_upgrade() {
	let (st, at) = state(2);
	let v = unsafe { VERSION };
	let p = pace();
	Pallet::<T>::on_runtime_upgrade();
	sx::check(pace() == p, "an upgrade does not resume or pace a migration");
	let now = Status::<T>::get();
	sx::check(Done::get().is_empty() && Fin::get() == 0, "an upgrade converts nothing");
	sx::check(Pallet::<T>::ensure_migrated().is_ok() == !running(&now), "the others wait for a migration");
	if v {
		sx::reach("already new");
		sx::check(now == MigrationStatus::NoMigrationInProgress, "there is nothing to migrate");
	} else if running(&st) {
		sx::reach("running");
		sx::check(now == st && LastKey::<T>::get() == at.map(|k| vec![k]), "a running migration is not started over");
	} else {
		sx::reach("started");
		sx::check(now == MigrationStatus::InProgress { steps_done: 0 }, "a new migration starts");
	}
	// what was done so far, by the migration that goes on
	let begun = matches!(st, MigrationStatus::InProgress { steps_done } if steps_done > 0);
	let from = if begun && !v { at.map_or(0, |k| k + 1) } else { 0 };
	// the next upgrade brings a migration
	if v {
		unsafe { VERSION = false };
		Pallet::<T>::on_runtime_upgrade();
		sx::check(pace() == p, "nor does the next");
		sx::check(Status::<T>::get() == MigrationStatus::InProgress { steps_done: 0 }, "a later migration starts");
	}
	BlockDelay::<T>::kill();
	BlockLimit::<T>::put(5);
	MigrationEnabled::<T>::put(true);
	unsafe {
		STEP = (1, 1);
		BASE = (1, 1);
		MAX = (100, 100);
	}
	Pallet::<T>::on_idle(sx::u32(), w((100, 100)));
	let want: Vec<u8> = (from..2).collect();
	sx::check(Done::get() == want, "a migration starts with its first item");
	sx::check(Fin::get() == 1 && Status::<T>::get() == MigrationStatus::Completed, "and ends with its last");
}
/// Pausing and pacing.
#[no_mangle]
pub extern "C" fn h_govern() {
	let (st, at) = state(2);
	let (en, delay, limit) = (MigrationEnabled::<T>::get(), BlockDelay::<T>::get(), BlockLimit::<T>::get());
	let root = sx::bool();
	let o: vstub::system::Origin<Acc, RtCall> = if root { RawOrigin::Root.into() } else { signed!(any_acc()) };
	let which = sx::choose(3);
	let (b, n) = (sx::bool(), sx::u32());
	let d = if sx::bool() { Some(n) } else { None };
	let r = with_layer(|| match which {
		0 => Pallet::<T>::enable_migration(o, b),
		1 => Pallet::<T>::set_block_delay(o, d),
		_ => Pallet::<T>::set_block_limit(o, n),
	});
	let (mut en2, mut delay2, mut limit2) = (en, delay, limit);
	if r.is_ok() {
		sx::reach("set");
		sx::check(root, "only governance paces a migration");
		match which {
			0 => en2 = b,
			1 => {
				sx::check(d.map_or(true, |d| d > 1), "a delay of more than one block");
				delay2 = d
			},
			_ => {
				sx::check(n > 0, "a block takes at least one step");
				limit2 = n
			},
		}
	} else {
		sx::reach("refused");
		sx::check(!root || (which == 1 && d.map_or(false, |d| d <= 1)) || (which == 2 && n == 0), "governance may set any other pace");
	}
	sx::check(MigrationEnabled::<T>::get() == en2, "paused or not");
	sx::check(BlockDelay::<T>::get() == delay2, "the delay");
	sx::check(BlockLimit::<T>::get() == limit2, "the limit");
	sx::check(Status::<T>::get() == st && LastKey::<T>::get() == at.map(|k| vec![k]), "progress is not touched");
}
