//! BoundedVec / WeakBoundedVec / BoundedBTreeMap with the semantics of `bounded-collections`.
use crate::cdc::*;
use crate::traits::Get;
use std::marker::PhantomData;
use std::ops::*;

macro_rules! bv {
	($n:ident) => {
		pub struct $n<T, S>(Vec<T>, PhantomData<S>);
		impl<T, S> Default for $n<T, S> {
			fn default() -> Self {
				$n(Vec::new(), PhantomData)
			}
		}
		impl<T: Clone, S> Clone for $n<T, S> {
			fn clone(&self) -> Self {
				$n(self.0.clone(), PhantomData)
			}
		}
		impl<T, S> std::fmt::Debug for $n<T, S> {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				f.write_str(stringify!($n))
			}
		}
		impl<T: PartialEq, S, S2> PartialEq<$n<T, S2>> for $n<T, S> {
			fn eq(&self, o: &$n<T, S2>) -> bool {
				self.0 == o.0
			}
		}
		impl<T: PartialEq, S> PartialEq<Vec<T>> for $n<T, S> {
			fn eq(&self, o: &Vec<T>) -> bool {
				&self.0 == o
			}
		}
		impl<T: Eq, S> Eq for $n<T, S> {}
		impl<T: PartialOrd, S> PartialOrd for $n<T, S> {
			fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
				self.0.partial_cmp(&o.0)
			}
		}
		impl<T: Ord, S> Ord for $n<T, S> {
			fn cmp(&self, o: &Self) -> std::cmp::Ordering {
				self.0.cmp(&o.0)
			}
		}
		impl<T, S> Deref for $n<T, S> {
			type Target = Vec<T>;
			fn deref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<[T]> for $n<T, S> {
			fn as_ref(&self) -> &[T] {
				&self.0
			}
		}
		impl<T, S> AsRef<Vec<T>> for $n<T, S> {
			fn as_ref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> IntoIterator for $n<T, S> {
			type Item = T;
			type IntoIter = std::vec::IntoIter<T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.into_iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a $n<T, S> {
			type Item = &'a T;
			type IntoIter = std::slice::Iter<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a mut $n<T, S> {
			type Item = &'a mut T;
			type IntoIter = std::slice::IterMut<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter_mut()
			}
		}
		impl<T: Encode, S> Encode for $n<T, S> {
			fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
				self.0.encode_to(out)
			}
			fn sclone(&self) -> Self {
				$n(self.0.sclone(), PhantomData)
			}
			fn seq(&self, o: &Self) -> bool {
				self.0.seq(&o.0)
			}
		}
		impl<T, S> From<$n<T, S>> for Vec<T> {
			fn from(x: $n<T, S>) -> Vec<T> {
				x.0
			}
		}
		impl<T, S> $n<T, S> {
			pub fn into_inner(self) -> Vec<T> {
				self.0
			}
			pub fn to_vec(&self) -> Vec<T>
			where
				T: Clone,
			{
				self.0.clone()
			}
			pub fn as_slice(&self) -> &[T] {
				&self.0
			}
			pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
				self.0.iter_mut()
			}
			pub fn last_mut(&mut self) -> Option<&mut T> {
				self.0.last_mut()
			}
			pub fn get_mut<I: std::slice::SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
				self.0.get_mut(i)
			}
			pub fn remove(&mut self, i: usize) -> T {
				self.0.remove(i)
			}
			pub fn swap_remove(&mut self, i: usize) -> T {
				self.0.swap_remove(i)
			}
			pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
				self.0.retain(f)
			}
			pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) {
				self.0.retain_mut(f)
			}
			pub fn truncate(&mut self, n: usize) {
				self.0.truncate(n)
			}
			pub fn clear(&mut self) {
				self.0.clear()
			}
			pub fn pop(&mut self) -> Option<T> {
				self.0.pop()
			}
			pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
				self.0.drain(r)
			}
			pub fn sort(&mut self)
			where
				T: Ord,
			{
				self.0.sort()
			}
			pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
				self.0.sort_by(f)
			}
			pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
				self.0.sort_by_key(f)
			}
		}
		impl<T, S: Get<u32>> $n<T, S> {
			pub fn bound() -> usize {
				S::get() as usize
			}
			pub fn is_full(&self) -> bool {
				self.0.len() >= Self::bound()
			}
			pub fn try_push(&mut self, x: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.push(x);
					Ok(())
				} else {
					Err(x)
				}
			}
			pub fn try_insert(&mut self, i: usize, x: T) -> Result<(), ()> {
				if self.0.len() < Self::bound() {
					self.0.insert(i, x);
					Ok(())
				} else {
					Err(())
				}
			}
			pub fn try_extend(&mut self, it: impl IntoIterator<Item = T>) -> Result<(), ()> {
				let old = self.0.len();
				for x in it {
					if self.0.len() >= Self::bound() {
						self.0.truncate(old);
						return Err(());
					}
					self.0.push(x)
				}
				Ok(())
			}
			pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
				if o.len() + self.0.len() > Self::bound() {
					return Err(());
				}
				self.0.append(o);
				Ok(())
			}
			pub fn try_mutate(mut self, f: impl FnOnce(&mut Vec<T>)) -> Option<Self> {
				f(&mut self.0);
				if self.0.len() <= Self::bound() {
					Some(self)
				} else {
					None
				}
			}
			pub fn truncate_from(mut v: Vec<T>) -> Self {
				v.truncate(Self::bound());
				$n(v, PhantomData)
			}
			pub fn force_push(&mut self, x: T) {
				if self.try_push(x).is_err() {
					panic!("force_push")
				}
			}
		}
		impl<T, S: Get<u32>> TryFrom<Vec<T>> for $n<T, S> {
			type Error = Vec<T>;
			fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
				if v.len() <= Self::bound() {
					Ok($n(v, PhantomData))
				} else {
					Err(v)
				}
			}
		}
		impl<T, S, I: std::slice::SliceIndex<[T]>> std::ops::Index<I> for $n<T, S> {
			type Output = I::Output;
			fn index(&self, i: I) -> &I::Output {
				&self.0[i]
			}
		}
		impl<T, S, I: std::slice::SliceIndex<[T]>> std::ops::IndexMut<I> for $n<T, S> {
			fn index_mut(&mut self, i: I) -> &mut I::Output {
				&mut self.0[i]
			}
		}
		impl<T: serde::Serialize, S> serde::Serialize for $n<T, S> {
			fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
				self.0.serialize(s)
			}
		}
		impl<'de, T: serde::Deserialize<'de>, S> serde::Deserialize<'de> for $n<T, S> {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				Vec::deserialize(d).map(|v| $n(v, PhantomData))
			}
		}
	};
}
bv!(BoundedVec);
bv!(WeakBoundedVec);
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(inp)?;
		if v.len() > S::get() as usize {
			return Err(Error);
		}
		Ok(BoundedVec(v, PhantomData))
	}
}
impl<T: Decode, S> Decode for WeakBoundedVec<T, S> {
	fn decode<I: Input>(inp: &mut I) -> Result<Self, Error> {
		Ok(WeakBoundedVec(Vec::decode(inp)?, PhantomData))
	}
}
impl<T, S> WeakBoundedVec<T, S> {
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self {
		WeakBoundedVec(v, PhantomData)
	}
}
impl<T, S: Get<u32>, const N: usize> TryFrom<[T; N]> for BoundedVec<T, S> {
	type Error = ();
	fn try_from(v: [T; N]) -> Result<Self, ()> {
		BoundedVec::try_from(Vec::from(v)).map_err(|_| ())
	}
}
