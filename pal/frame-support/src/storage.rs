//! Storage items as association lists. Keys are compared by value; iteration is in order of insertion
//! (FRAME's is by hash, that is, arbitrary).
use crate::rt;
use crate::traits::{Get, GetDefault};
use codec::FullCodec;
use core::marker::PhantomData;
use sp_runtime::{DispatchError, TransactionOutcome};

pub trait StorageInstance {
	fn id() -> u64;
}
pub fn salt<I: 'static>() -> u64 {
	0
}

pub struct OptionQuery;
pub struct ValueQuery;
pub trait QueryKind<V> {
	type Query;
}
impl<V> QueryKind<V> for OptionQuery {
	type Query = Option<V>;
}
impl<V> QueryKind<V> for ValueQuery {
	type Query = V;
}
pub trait QueryOps<V, E>: QueryKind<V> {
	fn from_opt(v: Option<V>) -> Self::Query;
	fn to_opt(q: Self::Query) -> Option<V>;
}
impl<V, E> QueryOps<V, E> for OptionQuery {
	fn from_opt(v: Option<V>) -> Option<V> {
		v
	}
	fn to_opt(q: Option<V>) -> Option<V> {
		q
	}
}
impl<V, E: Get<V>> QueryOps<V, E> for ValueQuery {
	fn from_opt(v: Option<V>) -> V {
		match v {
			Some(v) => v,
			None => E::get(),
		}
	}
	fn to_opt(q: V) -> Option<V> {
		Some(q)
	}
}

/// What may stand for a key or value: itself or a reference to it.
pub trait Arg<K> {
	fn own(self) -> K;
}
impl<K> Arg<K> for K {
	fn own(self) -> K {
		self
	}
}
impl<A: FullCodec, B: FullCodec> Arg<(A, B)> for (&A, &B) {
	fn own(self) -> (A, B) {
		(rt::dup(self.0), rt::dup(self.1))
	}
}
impl<K: FullCodec> Arg<K> for &K {
	fn own(self) -> K {
		rt::dup(self)
	}
}

fn table<P: StorageInstance, K: FullCodec + 'static, V: FullCodec + 'static>() -> &'static mut Vec<(K, V)> {
	let p = rt::slot::<Vec<(K, V)>>(P::id());
	unsafe {
		if (*p).is_none() {
			*p = Some(Vec::new());
		}
		(*p).as_mut().unwrap()
	}
}
fn find<K: PartialEq, V>(t: &Vec<(K, V)>, k: &K) -> Option<usize> {
	let mut i = 0;
	while i < t.len() {
		if t[i].0 == *k {
			return Some(i);
		}
		i += 1;
	}
	None
}
fn read<P: StorageInstance, K: FullCodec + PartialEq + 'static, V: FullCodec + 'static>(k: &K) -> Option<V> {
	let t = table::<P, K, V>();
	match find(t, k) {
		Some(i) => Some(rt::dup(&t[i].1)),
		None => None,
	}
}
fn write<P: StorageInstance, K: FullCodec + PartialEq + 'static, V: FullCodec + 'static>(k: K, v: Option<V>) {
	let t = table::<P, K, V>();
	match (find(t, &k), v) {
		(Some(i), Some(v)) => t[i].1 = v,
		(Some(i), None) => {
			t.remove(i);
		}
		(None, Some(v)) => t.push((k, v)),
		(None, None) => (),
	}
}

#[derive(Debug)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}

macro_rules! map_api {
	([$($g:ident),*] $key:ty, ($($a:ident : $A:ident [$($bound:tt)*]),*), $own:expr, $t:ty) => {
		pub fn get<$($A: $($bound)*),*>($($a: $A),*) -> Q::Query {
			let k: $key = $own;
			Q::from_opt(read::<P, $key, V>(&k))
		}
		pub fn try_get<$($A: $($bound)*),*>($($a: $A),*) -> Result<V, ()> {
			let k: $key = $own;
			read::<P, $key, V>(&k).ok_or(())
		}
		pub fn contains_key<$($A: $($bound)*),*>($($a: $A),*) -> bool {
			let k: $key = $own;
			find(table::<P, $key, V>(), &k).is_some()
		}
		pub fn insert<$($A: $($bound)*,)* VA: Arg<V>>($($a: $A,)* v: VA) {
			let k: $key = $own;
			write::<P, $key, V>(k, Some(v.own()))
		}
		pub fn set<$($A: $($bound)*),*>($($a: $A,)* v: Q::Query) {
			let k: $key = $own;
			write::<P, $key, V>(k, Q::to_opt(v))
		}
		pub fn remove<$($A: $($bound)*),*>($($a: $A),*) {
			let k: $key = $own;
			write::<P, $key, V>(k, None)
		}
		pub fn take<$($A: $($bound)*),*>($($a: $A),*) -> Q::Query {
			let k: $key = $own;
			let v = read::<P, $key, V>(&k);
			write::<P, $key, V>(k, None);
			Q::from_opt(v)
		}
		pub fn mutate<$($A: $($bound)*,)* R, F: FnOnce(&mut Q::Query) -> R>($($a: $A,)* f: F) -> R {
			let k: $key = $own;
			let mut q = Q::from_opt(read::<P, $key, V>(&k));
			let r = f(&mut q);
			write::<P, $key, V>(k, Q::to_opt(q));
			r
		}
		pub fn try_mutate<$($A: $($bound)*,)* R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>($($a: $A,)* f: F) -> Result<R, Er> {
			let k: $key = $own;
			let mut q = Q::from_opt(read::<P, $key, V>(&k));
			let r = f(&mut q);
			if r.is_ok() {
				write::<P, $key, V>(k, Q::to_opt(q));
			}
			r
		}
		pub fn mutate_exists<$($A: $($bound)*,)* R, F: FnOnce(&mut Option<V>) -> R>($($a: $A,)* f: F) -> R {
			let k: $key = $own;
			let mut q = read::<P, $key, V>(&k);
			let r = f(&mut q);
			write::<P, $key, V>(k, q);
			r
		}
		pub fn try_mutate_exists<$($A: $($bound)*,)* R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>($($a: $A,)* f: F) -> Result<R, Er> {
			let k: $key = $own;
			let mut q = read::<P, $key, V>(&k);
			let r = f(&mut q);
			if r.is_ok() {
				write::<P, $key, V>(k, q);
			}
			r
		}
		pub fn clear(_limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
			let t = table::<P, $key, V>();
			let n = t.len() as u32;
			*t = Vec::new();
			MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
		}
		pub fn count() -> u32 {
			table::<P, $key, V>().len() as u32
		}
	};
}
fn pairs<P: StorageInstance, K: FullCodec + 'static, V: FullCodec + 'static>() -> Vec<(K, V)> {
	rt::dup(table::<P, K, V>())
}

pub struct StorageValue<P, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, V, Q, E)>);
impl<P: StorageInstance, V: FullCodec + 'static, Q: QueryOps<V, E>, E> StorageValue<P, V, Q, E> {
	pub fn get() -> Q::Query {
		Q::from_opt(read::<P, (), V>(&()))
	}
	pub fn exists() -> bool {
		find(table::<P, (), V>(), &()).is_some()
	}
	pub fn put<VA: Arg<V>>(v: VA) {
		write::<P, (), V>((), Some(v.own()))
	}
	pub fn set(v: Q::Query) {
		write::<P, (), V>((), Q::to_opt(v))
	}
	pub fn kill() {
		write::<P, (), V>((), None)
	}
	pub fn take() -> Q::Query {
		let v = read::<P, (), V>(&());
		Self::kill();
		Q::from_opt(v)
	}
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
		let mut q = Q::from_opt(read::<P, (), V>(&()));
		let r = f(&mut q);
		write::<P, (), V>((), Q::to_opt(q));
		r
	}
	pub fn try_mutate<R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(f: F) -> Result<R, Er> {
		let mut q = Q::from_opt(read::<P, (), V>(&()));
		let r = f(&mut q);
		if r.is_ok() {
			write::<P, (), V>((), Q::to_opt(q));
		}
		r
	}
}

pub struct StorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, E, M)>);
impl<P: StorageInstance, H, K: FullCodec + PartialEq + 'static, V: FullCodec + 'static, Q: QueryOps<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	map_api!([] K, (k: KA [Arg<K>]), k.own(), Self);
	pub fn iter() -> std::vec::IntoIter<(K, V)> {
		pairs::<P, K, V>().into_iter()
	}
	pub fn iter_keys() -> std::vec::IntoIter<K> {
		let v: Vec<K> = pairs::<P, K, V>().into_iter().map(|p| p.0).collect();
		v.into_iter()
	}
	pub fn iter_values() -> std::vec::IntoIter<V> {
		let v: Vec<V> = pairs::<P, K, V>().into_iter().map(|p| p.1).collect();
		v.into_iter()
	}
	pub fn migrate_key<H0, KA: Arg<K>>(_k: KA) -> Option<V> {
		panic!("migrations are not modelled")
	}
	pub fn translate<O, F: FnMut(K, O) -> Option<V>>(_f: F) {
		panic!("migrations are not modelled")
	}
	pub fn drain() -> std::vec::IntoIter<(K, V)> {
		let v = pairs::<P, K, V>();
		*table::<P, K, V>() = Vec::new();
		v.into_iter()
	}
}
pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault> = StorageMap<P, H, K, V, Q, E, M>;

pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, E, M)>);
impl<P: StorageInstance, H1, K1: FullCodec + PartialEq + 'static, H2, K2: FullCodec + PartialEq + 'static, V: FullCodec + 'static, Q: QueryOps<V, E>, E, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
{
	map_api!([] (K1, K2), (a: A1 [Arg<K1>], b: A2 [Arg<K2>]), (a.own(), b.own()), Self);
	pub fn contains_prefix<A: Arg<K1>>(a: A) -> bool {
		Self::iter_prefix(a).next().is_some()
	}
	pub fn iter_prefix<A: Arg<K1>>(a: A) -> std::vec::IntoIter<(K2, V)> {
		let k = a.own();
		let v: Vec<(K2, V)> = pairs::<P, (K1, K2), V>().into_iter().filter(|p| p.0 .0 == k).map(|p| (p.0 .1, p.1)).collect();
		v.into_iter()
	}
	pub fn iter_prefix_values<A: Arg<K1>>(a: A) -> std::vec::IntoIter<V> {
		let v: Vec<V> = Self::iter_prefix(a).map(|p| p.1).collect();
		v.into_iter()
	}
	pub fn iter_key_prefix<A: Arg<K1>>(a: A) -> std::vec::IntoIter<K2> {
		let v: Vec<K2> = Self::iter_prefix(a).map(|p| p.0).collect();
		v.into_iter()
	}
	pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
		let v: Vec<(K1, K2, V)> = pairs::<P, (K1, K2), V>().into_iter().map(|p| (p.0 .0, p.0 .1, p.1)).collect();
		v.into_iter()
	}
	pub fn clear_prefix<A: Arg<K1>>(a: A, _limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		let k = a.own();
		let t = table::<P, (K1, K2), V>();
		let mut i = 0;
		let mut n = 0;
		while i < t.len() {
			if t[i].0 .0 == k {
				t.remove(i);
				n += 1;
			} else {
				i += 1;
			}
		}
		MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
	}
}

/// One hashed key of an n-map.
pub struct Key<H, K>(PhantomData<(H, K)>);
pub trait NKey {
	type Key: FullCodec + PartialEq + 'static;
}
impl<H, K: FullCodec + PartialEq + 'static> NKey for Key<H, K> {
	type Key = K;
}
impl<H1, K1: FullCodec + PartialEq + 'static, H2, K2: FullCodec + PartialEq + 'static> NKey for (Key<H1, K1>, Key<H2, K2>) {
	type Key = (K1, K2);
}
impl<H1, K1: FullCodec + PartialEq + 'static, H2, K2: FullCodec + PartialEq + 'static, H3, K3: FullCodec + PartialEq + 'static> NKey
	for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>)
{
	type Key = (K1, K2, K3);
}
pub trait NArg<K> {
	fn own(self) -> K;
}
impl<K1, K2, A: Arg<K1>, B: Arg<K2>> NArg<(K1, K2)> for (A, B) {
	fn own(self) -> (K1, K2) {
		(self.0.own(), self.1.own())
	}
}
impl<K1, K2, K3, A: Arg<K1>, B: Arg<K2>, C: Arg<K3>> NArg<(K1, K2, K3)> for (A, B, C) {
	fn own(self) -> (K1, K2, K3) {
		(self.0.own(), self.1.own(), self.2.own())
	}
}
pub struct StorageNMap<P, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, K, V, Q, E, M)>);
impl<P: StorageInstance, K: NKey, V: FullCodec + 'static, Q: QueryOps<V, E>, E, M> StorageNMap<P, K, V, Q, E, M> {
	map_api!([] K::Key, (k: KA [NArg<K::Key>]), k.own(), Self);
	pub fn iter() -> std::vec::IntoIter<(K::Key, V)> {
		pairs::<P, K::Key, V>().into_iter()
	}
	pub fn drain() -> std::vec::IntoIter<(K::Key, V)> {
		let v = pairs::<P, K::Key, V>();
		*table::<P, K::Key, V>() = Vec::new();
		v.into_iter()
	}
}
impl<P: StorageInstance, H1, K1: FullCodec + PartialEq + 'static, H2, K2: FullCodec + PartialEq + 'static, V: FullCodec + 'static, Q: QueryOps<V, E>, E, M>
	StorageNMap<P, (Key<H1, K1>, Key<H2, K2>), V, Q, E, M>
{
	pub fn iter_prefix<A: Arg<K1>>(a: (A,)) -> std::vec::IntoIter<(K2, V)> {
		let k = a.0.own();
		let v: Vec<(K2, V)> = pairs::<P, (K1, K2), V>().into_iter().filter(|p| p.0 .0 == k).map(|p| (p.0 .1, p.1)).collect();
		v.into_iter()
	}
}

/// Runs `f` in a storage layer of its own: kept when it succeeds, undone when it fails.
pub fn transactional<R, Er, F: FnOnce() -> Result<R, Er>>(f: F) -> Result<R, Er> {
	rt::mark();
	let r = f();
	rt::revert(r.is_err());
	r
}
pub fn with_transaction<R, Er: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<R, Er>>>(f: F) -> Result<R, Er> {
	rt::mark();
	match f() {
		TransactionOutcome::Commit(r) => {
			rt::revert(false);
			r
		}
		TransactionOutcome::Rollback(r) => {
			rt::revert(true);
			r
		}
	}
}
pub fn with_storage_layer<R, Er, F: FnOnce() -> Result<R, Er>>(f: F) -> Result<R, Er> {
	transactional(f)
}
