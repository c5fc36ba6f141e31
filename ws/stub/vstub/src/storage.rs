//! Storage model: every storage item is an association list of typed values, with FRAME's storage
//! layers (`begin`/`end`) for transactional roll-back. Lookups compare keys structurally, so keys and
//! values may be symbolic.
use crate::cdc::*;
use crate::traits::{Get, StorageInstance};
use std::marker::PhantomData;

trait AnyStore {
	fn snap(&self) -> Box<dyn AnyStore>;
	fn ptr(&mut self) -> *mut ();
	fn wipe(&mut self);
	fn items(&self) -> *const ();
	fn size(&self) -> usize;
	/// The same keys with the same values, in whatever order.
	fn same(&self, o: &dyn AnyStore) -> bool;
}
struct Store<K, V>(Vec<(K, V)>);
impl<K: Encode, V: Encode> AnyStore for Store<K, V> {
	fn snap(&self) -> Box<dyn AnyStore>
	{
		let mut v: Vec<(K, V)> = Vec::with_capacity(self.0.len());
		for (k, x) in &self.0 {
			v.push((k.sclone(), x.sclone()))
		}
		unsafe { core::mem::transmute::<Box<dyn AnyStore + '_>, Box<dyn AnyStore>>(Box::new(Store(v))) }
	}
	fn ptr(&mut self) -> *mut () {
		self as *mut Self as *mut ()
	}
	fn wipe(&mut self) {
		self.0.clear()
	}
	fn items(&self) -> *const () {
		&self.0 as *const Vec<(K, V)> as *const ()
	}
	fn size(&self) -> usize {
		self.0.len()
	}
	fn same(&self, o: &dyn AnyStore) -> bool {
		if self.0.len() != o.size() {
			return false;
		}
		// a slot holds one kind of store
		let o: &Vec<(K, V)> = unsafe { &*(o.items() as *const Vec<(K, V)>) };
		let mut i = 0;
		while i < self.0.len() {
			let (k, v) = &self.0[i];
			let j = if o[i].0.seq(k) { Some(i) } else { find(o, k) };
			match j {
				Some(j) if o[j].1.seq(v) => {},
				_ => return false,
			}
			i += 1;
		}
		true
	}
}
pub struct Slot {
	inner: Option<Box<dyn AnyStore>>,
	saved: u32,
	pub counter: u32,
}
impl Slot {
	pub const NEW: Slot = Slot { inner: None, saved: 0, counter: 0 };
}
struct Undo {
	slot: *mut Slot,
	old: Option<Box<dyn AnyStore>>,
	old_saved: u32,
	old_counter: u32,
}
static mut LAYERS: Vec<Vec<Undo>> = Vec::new();
static mut WRITES: u64 = 0;
fn layers() -> &'static mut Vec<Vec<Undo>> {
	unsafe { &mut *core::ptr::addr_of_mut!(LAYERS) }
}
pub fn begin() -> usize {
	let l = layers();
	l.push(Vec::new());
	l.len()
}
pub fn end(mark: usize, ok: bool) {
	let l = layers();
	assert!(l.len() == mark, "storage layers");
	let top = l.pop().unwrap();
	let depth = l.len() as u32;
	for u in top {
		let s = unsafe { &mut *u.slot };
		if ok {
			if depth > 0 && u.old_saved < depth {
				s.saved = depth;
				l[depth as usize - 1].push(u);
			} else {
				s.saved = u.old_saved;
			}
		} else {
			s.inner = u.old;
			s.saved = u.old_saved;
			s.counter = u.old_counter;
		}
	}
}
/// The storage that a computation left behind, by slot.
pub struct After(Vec<(*mut Slot, Option<Box<dyn AnyStore>>)>);
/// Run `f`, note the storage it leaves, and roll everything back.
pub fn capture<R>(f: impl FnOnce() -> R) -> (R, After) {
	let m = begin();
	let r = f();
	let mut a = Vec::new();
	for u in layers()[m - 1].iter() {
		let s = unsafe { &*u.slot };
		a.push((u.slot, s.inner.as_ref().map(|x| x.snap())));
	}
	end(m, false);
	(r, After(a))
}
fn same_slot(a: &Option<Box<dyn AnyStore>>, b: &Option<Box<dyn AnyStore>>) -> bool {
	match (a, b) {
		(None, None) => true,
		(Some(a), None) => a.size() == 0,
		(None, Some(b)) => b.size() == 0,
		(Some(a), Some(b)) => a.same(&**b),
	}
}
impl After {
	/// Both computations left the whole storage the same (slots only one of them touched are as now).
	pub fn same(&self, o: &After) -> bool {
		for (s, x) in &self.0 {
			let y = o.0.iter().find(|(t, _)| t == s);
			let eq = match y {
				Some((_, y)) => same_slot(x, y),
				None => same_slot(x, unsafe { &(**s).inner }),
			};
			if !eq {
				return false;
			}
		}
		for (s, x) in &o.0 {
			if self.0.iter().all(|(t, _)| t != s) && !same_slot(x, unsafe { &(**s).inner }) {
				return false;
			}
		}
		true
	}
	/// Nothing differs from the storage as it is now.
	pub fn none(&self) -> bool {
		self.0.iter().all(|(s, x)| same_slot(x, unsafe { &(**s).inner }))
	}
}
/// Run `f` in a storage layer, like FRAME's dispatch does.
pub fn with_layer<R, E>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
	let m = begin();
	let r = f();
	end(m, r.is_ok());
	r
}
/// Number of storage writes so far (used by harnesses to check that a rejected call wrote nothing).
pub fn writes() -> u64 {
	unsafe { WRITES }
}
fn rd<'a, K: Encode, V: Encode>(s: &mut Slot) -> &'a mut Vec<(K, V)> {
	if s.inner.is_none() {
		s.inner = Some(unsafe {
			core::mem::transmute::<Box<dyn AnyStore + '_>, Box<dyn AnyStore>>(Box::new(Store::<K, V>(Vec::new())))
		});
	}
	unsafe { &mut (*(s.inner.as_mut().unwrap().ptr() as *mut Store<K, V>)).0 }
}
fn wr<'a, K: Encode, V: Encode>(s: &mut Slot) -> &'a mut Vec<(K, V)> {
	unsafe { WRITES += 1 };
	let depth = layers().len() as u32;
	if s.saved < depth {
		let old = s.inner.as_ref().map(|x| x.snap());
		let u = Undo { slot: s, old, old_saved: s.saved, old_counter: s.counter };
		s.saved = depth;
		layers()[depth as usize - 1].push(u);
	}
	rd::<K, V>(s)
}
#[inline(never)]
fn find<K: Encode, V>(v: &Vec<(K, V)>, k: &K) -> Option<usize> {
	let mut i = 0;
	while i < v.len() {
		if v[i].0.seq(k) {
			return Some(i);
		}
		i += 1;
	}
	None
}

// ---- query kinds ----
pub trait QueryKindTrait<V, OnEmpty> {
	type Query;
	fn from_opt(v: Option<V>) -> Self::Query;
	fn to_opt(q: Self::Query) -> Option<V>;
}
pub struct OptionQuery;
pub struct ValueQuery;
pub struct ResultQuery<E>(PhantomData<E>);
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
impl<V, O> QueryKindTrait<V, O> for OptionQuery {
	type Query = Option<V>;
	fn from_opt(v: Option<V>) -> Option<V> {
		v
	}
	fn to_opt(q: Option<V>) -> Option<V> {
		q
	}
}
impl<V, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
	type Query = V;
	fn from_opt(v: Option<V>) -> V {
		match v {
			Some(x) => x,
			None => O::get(),
		}
	}
	fn to_opt(q: V) -> Option<V> {
		Some(q)
	}
}
pub trait StorageQuery {
	type Query;
	type K1;
	type K2;
}

// ---- low-level typed operations ----
struct Raw<P, K, V>(PhantomData<(P, K, V)>);
impl<P: StorageInstance, K: Encode, V: Encode> Raw<P, K, V> {
	fn list<'a>() -> &'a mut Vec<(K, V)> {
		rd::<K, V>(P::slot())
	}
	fn list_mut<'a>() -> &'a mut Vec<(K, V)> {
		wr::<K, V>(P::slot())
	}
	fn get(k: &K) -> Option<V> {
		let l = Self::list();
		find(l, k).map(|i| l[i].1.sclone())
	}
	fn set(k: K, v: Option<V>) {
		let l = Self::list_mut();
		match (find(l, &k), v) {
			(Some(i), Some(v)) => l[i].1 = v,
			(None, Some(v)) => l.push((k, v)),
			(Some(i), None) => {
				l.remove(i);
			},
			(None, None) => {},
		}
	}
	fn take(k: &K) -> Option<V> {
		let l = Self::list_mut();
		find(l, k).map(|i| l.remove(i).1)
	}
	fn try_mutate<Q: QueryKindTrait<V, O>, O, R, E>(k: K, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
		let mut q = Q::from_opt(Self::get(&k));
		let r = f(&mut q)?;
		Self::set(k, Q::to_opt(q));
		Ok(r)
	}
	fn try_mutate_exists<R, E>(k: K, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
		let mut q = Self::get(&k);
		let r = f(&mut q)?;
		Self::set(k, q);
		Ok(r)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Never {}
fn ok<R>(r: Result<R, Never>) -> R {
	match r {
		Ok(x) => x,
		Err(e) => match e {},
	}
}
pub trait StorageDecodeLength {
	fn slen(&self) -> usize;
}
impl<T> StorageDecodeLength for Vec<T> {
	fn slen(&self) -> usize {
		self.len()
	}
}
impl<T, S> StorageDecodeLength for crate::bounded::BoundedVec<T, S> {
	fn slen(&self) -> usize {
		self.len()
	}
}
impl<T, S> StorageDecodeLength for crate::bounded::WeakBoundedVec<T, S> {
	fn slen(&self) -> usize {
		self.len()
	}
}
pub trait StorageAppend<I> {
	fn sappend(&mut self, i: I);
}
impl<T> StorageAppend<T> for Vec<T> {
	fn sappend(&mut self, i: T) {
		self.push(i)
	}
}

pub trait StorageTryAppend<I>: StorageDecodeLength {
	fn sbound() -> usize;
	fn spush(&mut self, i: I);
}
impl<T, S: Get<u32>> StorageTryAppend<T> for crate::bounded::BoundedVec<T, S> {
	fn sbound() -> usize {
		S::get() as usize
	}
	fn spush(&mut self, i: T) {
		let _ = self.try_push(i);
	}
}
impl<T, S: Get<u32>> StorageTryAppend<T> for crate::bounded::WeakBoundedVec<T, S> {
	fn sbound() -> usize {
		S::get() as usize
	}
	fn spush(&mut self, i: T) {
		let _ = self.try_push(i);
	}
}

// ---- StorageValue ----
pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault, M = ()>(PhantomData<(P, V, Q, O, M)>);
impl<P, V, Q: QueryKindTrait<V, O>, O, M> StorageQuery for StorageValue<P, V, Q, O, M> {
	type Query = Q::Query;
	type K1 = ();
	type K2 = ();
}
impl<P: StorageInstance, V: Encode, Q: QueryKindTrait<V, O>, O, M> StorageValue<P, V, Q, O, M> {
	pub fn get() -> Q::Query {
		Q::from_opt(Raw::<P, (), V>::get(&()))
	}
	pub fn try_get() -> Result<V, ()> {
		Raw::<P, (), V>::get(&()).ok_or(())
	}
	pub fn exists() -> bool {
		!Raw::<P, (), V>::list().is_empty()
	}
	pub fn put<A: EncodeLike<V>>(v: A) {
		Raw::<P, (), V>::set((), Some(v.into_like()))
	}
	pub fn set(q: Q::Query) {
		Raw::<P, (), V>::set((), Q::to_opt(q))
	}
	pub fn kill() {
		Raw::<P, (), V>::set((), None)
	}
	pub fn take() -> Q::Query {
		Q::from_opt(Raw::<P, (), V>::take(&()))
	}
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
		ok(Raw::<P, (), V>::try_mutate::<Q, O, R, Never>((), |q| Ok(f(q))))
	}
	pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
		Raw::<P, (), V>::try_mutate::<Q, O, R, E>((), f)
	}
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
		ok(Raw::<P, (), V>::try_mutate_exists::<R, Never>((), |q| Ok(f(q))))
	}
	pub fn append<I>(i: I)
	where
		V: StorageAppend<I> + Default,
	{
		let mut v = Raw::<P, (), V>::get(&()).unwrap_or_default();
		v.sappend(i);
		Raw::<P, (), V>::set((), Some(v))
	}
	pub fn try_append<I>(i: I) -> Result<(), ()>
	where
		V: StorageTryAppend<I> + Default,
	{
		let mut v = Raw::<P, (), V>::get(&()).unwrap_or_default();
		if v.slen() >= V::sbound() {
			return Err(());
		}
		v.spush(i);
		Raw::<P, (), V>::set((), Some(v));
		Ok(())
	}
	pub fn decode_len() -> Option<usize>
	where
		V: StorageDecodeLength,
	{
		Raw::<P, (), V>::get(&()).map(|v| v.slen())
	}
	pub fn hashed_key() -> [u8; 32] {
		[0; 32]
	}
	pub fn translate<OV, F: FnOnce(Option<OV>) -> Option<V>>(_f: F) -> Result<Option<V>, ()> {
		unimplemented!()
	}
}
// ---- StorageMap ----
macro_rules! map_like {
	($name:ident) => {
		pub struct $name<P, H, K, V, Q = OptionQuery, O = GetDefault, M = ()>(PhantomData<(P, H, K, V, Q, O, M)>);
		impl<P, H, K, V, Q: QueryKindTrait<V, O>, O, M> StorageQuery for $name<P, H, K, V, Q, O, M> {
			type Query = Q::Query;
			type K1 = K;
			type K2 = ();
		}
		impl<P: StorageInstance, H, K: Encode, V: Encode, Q: QueryKindTrait<V, O>, O, M> $name<P, H, K, V, Q, O, M> {
			pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
				Q::from_opt(Raw::<P, K, V>::get(&k.into_like()))
			}
			pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
				Raw::<P, K, V>::get(&k.into_like()).ok_or(())
			}
			pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
				find(Raw::<P, K, V>::list(), &k.into_like()).is_some()
			}
			pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
				Raw::<P, K, V>::set(k.into_like(), Some(v.into_like()))
			}
			pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) {
				Raw::<P, K, V>::set(k.into_like(), Q::to_opt(q))
			}
			pub fn remove<A: EncodeLike<K>>(k: A) {
				Raw::<P, K, V>::set(k.into_like(), None)
			}
			pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
				Q::from_opt(Raw::<P, K, V>::take(&k.into_like()))
			}
			pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
				let (a, b) = (a.into_like(), b.into_like());
				let (x, y) = (Raw::<P, K, V>::get(&a), Raw::<P, K, V>::get(&b));
				Raw::<P, K, V>::set(a, y);
				Raw::<P, K, V>::set(b, x);
			}
			pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
				ok(Raw::<P, K, V>::try_mutate::<Q, O, R, Never>(k.into_like(), |q| Ok(f(q))))
			}
			pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
				Raw::<P, K, V>::try_mutate::<Q, O, R, E>(k.into_like(), f)
			}
			pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
				ok(Raw::<P, K, V>::try_mutate_exists::<R, Never>(k.into_like(), |q| Ok(f(q))))
			}
			pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
				Raw::<P, K, V>::try_mutate_exists::<R, E>(k.into_like(), f)
			}
			pub fn append<A: EncodeLike<K>, I>(k: A, i: I)
			where
				V: StorageAppend<I> + Default,
			{
				let k = k.into_like();
				let mut v = Raw::<P, K, V>::get(&k).unwrap_or_default();
				v.sappend(i);
				Raw::<P, K, V>::set(k, Some(v))
			}
			pub fn try_append<A: EncodeLike<K>, I>(k: A, i: I) -> Result<(), ()>
			where
				V: StorageTryAppend<I> + Default,
			{
				let k = k.into_like();
				let mut v = Raw::<P, K, V>::get(&k).unwrap_or_default();
				if v.slen() >= V::sbound() {
					return Err(());
				}
				v.spush(i);
				Raw::<P, K, V>::set(k, Some(v));
				Ok(())
			}
			pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize>
			where
				V: StorageDecodeLength,
			{
				Raw::<P, K, V>::get(&k.into_like()).map(|v| v.slen())
			}
			pub fn iter() -> std::vec::IntoIter<(K, V)> {
				let l = Raw::<P, K, V>::list();
				let mut v = Vec::with_capacity(l.len());
				for (k, x) in l.iter() {
					v.push((k.sclone(), x.sclone()))
				}
				v.into_iter()
			}
			pub fn iter_keys() -> std::vec::IntoIter<K> {
				let l = Raw::<P, K, V>::list();
				let mut v = Vec::with_capacity(l.len());
				for (k, _) in l.iter() {
					v.push(k.sclone())
				}
				v.into_iter()
			}
			pub fn iter_values() -> std::vec::IntoIter<V> {
				let l = Raw::<P, K, V>::list();
				let mut v = Vec::with_capacity(l.len());
				for (_, x) in l.iter() {
					v.push(x.sclone())
				}
				v.into_iter()
			}
			pub fn iter_from(start: Vec<u8>) -> std::vec::IntoIter<(K, V)> {
				// key cursors are modelled by `hashed_key_for`: the encoded position in the list
				let n = decode_pos(&start);
				let l = Raw::<P, K, V>::list();
				let mut v = Vec::new();
				for (k, x) in l.iter().skip(n) {
					v.push((k.sclone(), x.sclone()))
				}
				v.into_iter()
			}
			pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
				let l = Raw::<P, K, V>::list();
				let n = find(l, &k.into_like()).map(|i| i + 1).unwrap_or(l.len());
				(n as u32).encode()
			}
			/// Lazy, as in FRAME: entries are removed as the iterator advances.
			pub fn drain() -> DrainAll<P, K, V> {
				DrainAll(PhantomData)
			}
			pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
				let n = core::mem::take(Raw::<P, K, V>::list_mut()).len() as u32;
				MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
			}
			pub fn remove_all(_limit: Option<u32>) {
				Raw::<P, K, V>::list_mut().clear()
			}
			pub fn count() -> u32 {
				Raw::<P, K, V>::list().len() as u32
			}
			pub fn translate<OV, F: FnMut(K, OV) -> Option<V>>(_f: F) {
				unimplemented!()
			}
		}
	};
}
fn decode_pos(b: &[u8]) -> usize {
	u32::decode(&mut &b[..]).unwrap_or(0) as usize
}
map_like!(StorageMap);
map_like!(CountedStorageMap);
#[derive(Default)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
// ---- StorageDoubleMap ----
pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = ()>(PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>);
impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, O>, O, M> StorageQuery for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
	type Query = Q::Query;
	type K1 = K1;
	type K2 = K2;
}
impl<P: StorageInstance, H1, K1: Encode, H2, K2: Encode, V: Encode, Q: QueryKindTrait<V, O>, O, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
{
	pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
		Q::from_opt(Raw::<P, (K1, K2), V>::get(&(a.into_like(), b.into_like())))
	}
	pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
		Raw::<P, (K1, K2), V>::get(&(a.into_like(), b.into_like())).ok_or(())
	}
	pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
		find(Raw::<P, (K1, K2), V>::list(), &(a.into_like(), b.into_like())).is_some()
	}
	pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
		Raw::<P, (K1, K2), V>::set((a.into_like(), b.into_like()), Some(v.into_like()))
	}
	pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
		Raw::<P, (K1, K2), V>::set((a.into_like(), b.into_like()), Q::to_opt(q))
	}
	pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
		Raw::<P, (K1, K2), V>::set((a.into_like(), b.into_like()), None)
	}
	pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
		Q::from_opt(Raw::<P, (K1, K2), V>::take(&(a.into_like(), b.into_like())))
	}
	pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
		ok(Raw::<P, (K1, K2), V>::try_mutate::<Q, O, R, Never>((a.into_like(), b.into_like()), |q| Ok(f(q))))
	}
	pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
		Raw::<P, (K1, K2), V>::try_mutate::<Q, O, R, E>((a.into_like(), b.into_like()), f)
	}
	pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R {
		ok(Raw::<P, (K1, K2), V>::try_mutate_exists::<R, Never>((a.into_like(), b.into_like()), |q| Ok(f(q))))
	}
	pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(a: A, b: B, f: F) -> Result<R, E> {
		Raw::<P, (K1, K2), V>::try_mutate_exists::<R, E>((a.into_like(), b.into_like()), f)
	}
	pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
		let l = Raw::<P, (K1, K2), V>::list();
		let mut v = Vec::with_capacity(l.len());
		for (k, x) in l.iter() {
			v.push((k.0.sclone(), k.1.sclone(), x.sclone()))
		}
		v.into_iter()
	}
	pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)> {
		let l = Raw::<P, (K1, K2), V>::list();
		let mut v = Vec::with_capacity(l.len());
		for (k, _) in l.iter() {
			v.push((k.0.sclone(), k.1.sclone()))
		}
		v.into_iter()
	}
	pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIter<(K2, V)> {
		Self::iter_prefix_from(a, Vec::new())
	}
	pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2> {
		let v: Vec<K2> = Self::iter_prefix(a).map(|x| x.0).collect();
		v.into_iter()
	}
	pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<V> {
		let v: Vec<V> = Self::iter_prefix(a).map(|x| x.1).collect();
		v.into_iter()
	}
	/// Lazy, as in FRAME: entries are removed as the iterator advances.
	pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> DrainPrefix<P, K1, K2, V> {
		DrainPrefix { k1: a.into_like(), p: PhantomData }
	}
	pub fn iter_prefix_from<A: EncodeLike<K1>>(a: A, from: Vec<u8>) -> PrefixIter<(K2, V)> {
		let a = a.into_like();
		let n = decode_pos(&from);
		let l = Raw::<P, (K1, K2), V>::list();
		let mut v = Vec::new();
		let mut pos = Vec::new();
		for (i, (k, x)) in l.iter().enumerate() {
			if i >= n && k.0.seq(&a) {
				v.push((k.1.sclone(), x.sclone()));
				pos.push(i as u32 + 1);
			}
		}
		PrefixIter { v: v.into_iter(), pos, i: 0, last: (n as u32).encode() }
	}
	/// `limit` is honoured: at most that many entries are removed, the cursor tells whether more remain.
	pub fn clear_prefix<A: EncodeLike<K1>>(a: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
		let a = a.into_like();
		let l = Raw::<P, (K1, K2), V>::list_mut();
		let mut n = 0u32;
		let mut i = 0;
		let mut more = false;
		while i < l.len() {
			if l[i].0 .0.seq(&a) {
				if n == limit {
					more = true;
					break;
				}
				l.remove(i);
				n += 1;
			} else {
				i += 1;
			}
		}
		MultiRemovalResults { maybe_cursor: if more { Some(Vec::new()) } else { None }, backend: n, unique: n, loops: n }
	}
	pub fn remove_prefix<A: EncodeLike<K1>>(a: A, limit: Option<u32>) {
		Self::clear_prefix(a, limit.unwrap_or(u32::MAX), None);
	}
	pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
		let n = core::mem::take(Raw::<P, (K1, K2), V>::list_mut()).len() as u32;
		MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
	}
	pub fn drain() -> std::vec::IntoIter<(K1, K2, V)> {
		let v: Vec<(K1, K2, V)> = core::mem::take(Raw::<P, (K1, K2), V>::list_mut()).into_iter().map(|((a, b), v)| (a, b, v)).collect();
		v.into_iter()
	}
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
		let l = Raw::<P, (K1, K2), V>::list();
		let n = find(l, &(a.into_like(), b.into_like())).map(|i| i + 1).unwrap_or(l.len());
		(n as u32).encode()
	}
}
pub struct DrainAll<P, K, V>(PhantomData<(P, K, V)>);
impl<P: StorageInstance, K: Encode, V: Encode> Iterator for DrainAll<P, K, V> {
	type Item = (K, V);
	fn next(&mut self) -> Option<(K, V)> {
		let l = Raw::<P, K, V>::list_mut();
		if l.is_empty() {
			None
		} else {
			Some(l.remove(0))
		}
	}
}
pub struct DrainPrefix<P, K1, K2, V> {
	k1: K1,
	p: PhantomData<(P, K2, V)>,
}
impl<P: StorageInstance, K1: Encode, K2: Encode, V: Encode> Iterator for DrainPrefix<P, K1, K2, V> {
	type Item = (K2, V);
	fn next(&mut self) -> Option<(K2, V)> {
		let l = Raw::<P, (K1, K2), V>::list_mut();
		let mut i = 0;
		while i < l.len() {
			if l[i].0 .0.seq(&self.k1) {
				let ((_, k2), v) = l.remove(i);
				return Some((k2, v));
			}
			i += 1;
		}
		None
	}
}
/// Iterator over a prefix; the raw key of an entry is modelled by its position + 1.
pub struct PrefixIter<T> {
	v: std::vec::IntoIter<T>,
	pos: Vec<u32>,
	i: usize,
	last: Vec<u8>,
}
impl<T> PrefixIter<T> {
	pub fn last_raw_key(&self) -> &[u8] {
		&self.last
	}
}
impl<T> Iterator for PrefixIter<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		let r = self.v.next();
		if r.is_some() {
			self.last = self.pos[self.i].encode();
			self.i += 1;
		}
		r
	}
}
pub fn any_dispatch_info() -> crate::support::dispatch::DispatchInfo {
	crate::support::dispatch::DispatchInfo {
		weight: crate::weights::Weight::from_parts(crate::sx::u64(), 0),
		..Default::default()
	}
}
pub mod unhashed {}
pub mod child {}
