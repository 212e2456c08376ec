#![allow(clippy::all)]
#[macro_use]
mod table;
mod farming;
mod staking;
mod fees;
mod subpools;
mod ema;
mod lbp;
mod rational;
mod powers;
mod lbp_trade;
mod omnipool;
mod support;
mod stable;
mod xyk;

fn main() {
	let mut t: Vec<(&'static str, fn())> = vec![];
	xyk::register(&mut t);
	farming::register(&mut t);
	staking::register(&mut t);
	fees::register(&mut t);
	subpools::register(&mut t);
	lbp::register(&mut t);
	rational::register(&mut t);
	powers::register(&mut t);
	lbp_trade::register(&mut t);
	ema::register(&mut t);
	support::register(&mut t);
	stable::register(&mut t);
	omnipool::register(&mut t);
	symx::native::main(&t);
}
