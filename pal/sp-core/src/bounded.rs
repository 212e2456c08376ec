//! Collections with an upper bound on their length.
use crate::Get;
use codec::{Decode, Encode, Error, Input, MaxEncodedLen, Output};
use core::marker::PhantomData;
use core::ops::{Deref, Index, IndexMut};

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_push(&mut self, v: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(v);
			Ok(())
		} else {
			Err(v)
		}
	}
	pub fn try_insert(&mut self, i: usize, v: T) -> Result<(), ()> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, v);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self(v, PhantomData)
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
}
impl<T, S> BoundedVec<T, S> {
	pub fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn iter_mut(&mut self) -> core::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
		self.0.get_mut(i)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn to_vec(&self) -> Vec<T>
	where
		T: Clone,
	{
		self.0.clone()
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: PartialEq, S> PartialEq for BoundedVec<T, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		self.0 == *o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T, S> core::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("BoundedVec")
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S, I: core::slice::SliceIndex<[T]>> Index<I> for BoundedVec<T, S> {
	type Output = I::Output;
	fn index(&self, i: I) -> &I::Output {
		&self.0[i]
	}
}
impl<T, S, I: core::slice::SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> {
	fn index_mut(&mut self, i: I) -> &mut I::Output {
		&mut self.0[i]
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = core::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self(v, PhantomData))
		} else {
			Err(v)
		}
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(v: BoundedVec<T, S>) -> Vec<T> {
		v.0
	}
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<T: Encode, S> codec::EncodeLike for BoundedVec<T, S> {}
impl<T: Decode, S> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Vec::decode(i)?, PhantomData))
	}
}
impl<T: Encode, S> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<T: scale_info::TypeInfo + 'static, S: 'static> scale_info::TypeInfo for BoundedVec<T, S> {
	type Identity = Vec<T>;
	fn type_info() -> scale_info::Type {
		Vec::<T>::type_info()
	}
}
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> {
	fn serialize<X: serde::Serializer>(&self, _s: X) -> Result<X::Ok, X::Error> {
		unimplemented!()
	}
}
impl<'de, T, S> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
		unimplemented!()
	}
}

/// Sorted association list with the interface of a map.
pub struct BoundedBTreeMap<K, V, S>(Vec<(K, V)>, PhantomData<S>);
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		for i in 0..self.0.len() {
			if self.0[i].0 == k {
				return Ok(Some(core::mem::replace(&mut self.0[i].1, v)));
			}
		}
		if self.0.len() >= S::get() as usize {
			return Err((k, v));
		}
		let mut at = self.0.len();
		while at > 0 && k < self.0[at - 1].0 {
			at -= 1;
		}
		self.0.insert(at, (k, v));
		Ok(None)
	}
}
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn get(&self, k: &K) -> Option<&V> {
		for e in self.0.iter() {
			if e.0 == *k {
				return Some(&e.1);
			}
		}
		None
	}
	pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
		for e in self.0.iter_mut() {
			if e.0 == *k {
				return Some(&mut e.1);
			}
		}
		None
	}
	pub fn contains_key(&self, k: &K) -> bool {
		self.get(k).is_some()
	}
	pub fn remove(&mut self, k: &K) -> Option<V> {
		for i in 0..self.0.len() {
			if self.0[i].0 == *k {
				return Some(self.0.remove(i).1);
			}
		}
		None
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
		self.0.iter().map(|e| (&e.0, &e.1))
	}
	pub fn keys(&self) -> impl Iterator<Item = &K> {
		self.0.iter().map(|e| &e.0)
	}
	pub fn values(&self) -> impl Iterator<Item = &V> {
		self.0.iter().map(|e| &e.1)
	}
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::vec::IntoIter<(K, V)>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(Vec::new(), PhantomData)
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K, V, S> core::fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		f.write_str("BoundedBTreeMap")
	}
}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<K: Encode, V: Encode, S> codec::EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode, V: Decode, S> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Vec::decode(i)?, PhantomData))
	}
}
impl<K: Encode, V: Encode, S> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl<K: scale_info::TypeInfo + 'static, V: scale_info::TypeInfo + 'static, S: 'static> scale_info::TypeInfo for BoundedBTreeMap<K, V, S> {
	type Identity = Vec<(K, V)>;
	fn type_info() -> scale_info::Type {
		Vec::<(K, V)>::type_info()
	}
}

/// Sorted list with the interface of a set.
pub struct BoundedBTreeSet<K, S>(Vec<K>, PhantomData<S>);
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.contains(&k) {
			return Ok(false);
		}
		if self.0.len() >= S::get() as usize {
			return Err(k);
		}
		let mut at = self.0.len();
		while at > 0 && k < self.0[at - 1] {
			at -= 1;
		}
		self.0.insert(at, k);
		Ok(true)
	}
}
impl<K: Ord, S> BoundedBTreeSet<K, S> {
	pub fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn contains(&self, k: &K) -> bool {
		self.0.iter().any(|e| *e == *k)
	}
	pub fn remove(&mut self, k: &K) -> bool {
		let mut i = 0;
		while i < self.0.len() {
			if self.0[i] == *k {
				self.0.remove(i);
				return true;
			}
			i += 1;
		}
		false
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn iter(&self) -> core::slice::Iter<'_, K> {
		self.0.iter()
	}
}
impl<K, S> IntoIterator for BoundedBTreeSet<K, S> {
	type Item = K;
	type IntoIter = std::vec::IntoIter<K>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<K: Clone, S> Clone for BoundedBTreeSet<K, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<K, S> Default for BoundedBTreeSet<K, S> {
	fn default() -> Self {
		Self(Vec::new(), PhantomData)
	}
}
impl<K: Encode, S> Encode for BoundedBTreeSet<K, S> {
	fn encode_to<W: Output + ?Sized>(&self, d: &mut W) {
		self.0.encode_to(d)
	}
}
impl<K: Encode, S> codec::EncodeLike for BoundedBTreeSet<K, S> {}
impl<K: Decode, S> Decode for BoundedBTreeSet<K, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Ok(Self(Vec::decode(i)?, PhantomData))
	}
}
