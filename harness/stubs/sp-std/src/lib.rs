//! sp-std in std mode re-exports std.
pub use std::{alloc, any, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, sync, time, vec};
pub mod str {
	pub use std::str::*;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub struct Utf8Error;
	/// The well-formed sequences of the Unicode standard (std's own has no MIR to encode).
	pub fn from_utf8(v: &[u8]) -> Result<&str, Utf8Error> {
		let mut i = 0;
		while i < v.len() {
			let (n, lo, hi) = match v[i] {
				0..=0x7f => (0, 0x80, 0xbf),
				0xc2..=0xdf => (1, 0x80, 0xbf),
				0xe0 => (2, 0xa0, 0xbf),
				0xed => (2, 0x80, 0x9f),
				0xe1..=0xef => (2, 0x80, 0xbf),
				0xf0 => (3, 0x90, 0xbf),
				0xf1..=0xf3 => (3, 0x80, 0xbf),
				0xf4 => (3, 0x80, 0x8f),
				_ => return Err(Utf8Error),
			};
			let mut k = 1;
			while k <= n {
				if i + k >= v.len() {
					return Err(Utf8Error);
				}
				let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
				if v[i + k] < l || v[i + k] > h {
					return Err(Utf8Error);
				}
				k += 1;
			}
			i += 1 + n;
		}
		Ok(unsafe { std::str::from_utf8_unchecked(v) })
	}
}
pub mod collections {
	pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque};
}
pub mod prelude {
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::iter::IntoIterator;
	pub use std::vec;
	pub use std::vec::Vec;
}
#[macro_export]
macro_rules! if_std {
	( $( $code:tt )* ) => { $( $code )* };
}
