#![allow(clippy::all)]
#[macro_use]
#[path = "../../../harness/hmath/src/table.rs"]
mod table;
mod h;

fn main() {
	let mut t: Vec<(&'static str, fn())> = vec![];
	h::register(&mut t);
	symx::native::main(&t);
}
