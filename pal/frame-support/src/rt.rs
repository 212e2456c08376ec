//! The three primitives under the storage types. The symbolic engine replaces them: `slot` by one memory
//! cell per table, `dup` by a structural copy, `mark`/`revert` by a copy of all cells.
use codec::{Codec, Decode, Encode};
use std::cell::RefCell;
use std::collections::BTreeMap;

struct Cell {
	ptr: *mut (),
	save: fn(*mut ()) -> Vec<u8>,
	load: fn(*mut (), &[u8]),
}
thread_local! {
	static TABLE: RefCell<BTreeMap<u64, Cell>> = RefCell::new(BTreeMap::new());
	static MARKS: RefCell<Vec<BTreeMap<u64, Vec<u8>>>> = RefCell::new(vec![]);
}
fn save<T: Codec>(p: *mut ()) -> Vec<u8> {
	unsafe { (*(p as *mut Option<T>)).encode() }
}
fn load<T: Codec>(p: *mut (), b: &[u8]) {
	unsafe { *(p as *mut Option<T>) = Option::<T>::decode(&mut &b[..]).unwrap() }
}
#[inline(never)]
pub fn slot<T: Codec + 'static>(id: u64) -> *mut Option<T> {
	TABLE.with(|t| {
		t.borrow_mut()
			.entry(id)
			.or_insert_with(|| Cell { ptr: Box::into_raw(Box::new(None::<T>)) as *mut (), save: save::<T>, load: load::<T> })
			.ptr as *mut Option<T>
	})
}
#[inline(never)]
pub fn dup<T: Codec>(v: &T) -> T {
	T::decode(&mut &v.encode()[..]).unwrap()
}
/// A value of another type with the same encoding.
#[inline(never)]
pub fn recast<A: Encode, B: Decode>(a: A) -> B {
	B::decode(&mut &a.encode()[..]).unwrap()
}
#[inline(never)]
pub fn mark() {
	let m = TABLE.with(|t| t.borrow().iter().map(|(k, c)| (*k, (c.save)(c.ptr))).collect());
	MARKS.with(|s| s.borrow_mut().push(m));
}
#[inline(never)]
pub fn revert(undo: bool) {
	let m = MARKS.with(|s| s.borrow_mut().pop().unwrap());
	if undo {
		TABLE.with(|t| {
			for (k, c) in t.borrow().iter() {
				match m.get(k) {
					Some(b) => (c.load)(c.ptr, b),
					None => (c.load)(c.ptr, &[0]),
				}
			}
		});
	}
}
