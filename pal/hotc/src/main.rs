#![allow(clippy::all)]
#[macro_use]
#[path = "../../../harness/hmath/src/table.rs"]
mod table;
mod otc;

fn main() {
	let mut t: Vec<(&'static str, fn())> = vec![];
	otc::register(&mut t);
	symx::native::main(&t);
}
