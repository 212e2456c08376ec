#![allow(clippy::all)]
#[macro_use]
#[path = "../../../harness/hmath/src/table.rs"]
mod table;
mod cb;

fn main() {
	let mut t: Vec<(&'static str, fn())> = vec![];
	cb::register(&mut t);
	symx::native::main(&t);
}
