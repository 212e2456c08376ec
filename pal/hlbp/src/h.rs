use frame_support::pallet_prelude::*;
use hrt::*;
use hydradx_traits::pools::*;
use hydradx_traits::registry::AssetPairAccountIdFor;
use hydradx_traits::{CanCreatePool, LockedBalance};
use pallet_lbp::{Config, DisallowWhenLBPPoolRunning, FeeCollectorWithAsset, LBPWeightFunction, Pallet, Pool, PoolData, WeightCurveType, COLLECTOR_LOCK_ID};
use symx::*;

hrt::runtime!(pallet_lbp);
hrt::cells! {
	CMin MinTrade: u128 = 102;
	CLiq MinLiq: u128 = 103;
	CIn InRatio: u128 = 104;
	COut OutRatio: u128 = 105;
}
hrt::gets! {
	GMin: u128 = MinTrade::get();
	GLiq: u128 = MinLiq::get();
	GIn: u128 = InRatio::get();
	GOut: u128 = OutRatio::get();
}
pub struct Pools;
impl AssetPairAccountIdFor<AssetId, AccountId> for Pools {
	fn from_assets(a: AssetId, b: AssetId, _: &str) -> AccountId {
		let (a, b) = if a < b { (a, b) } else { (b, a) };
		1000 + (a * 100 + b) as u64
	}
}
pub struct Locks;
impl LockedBalance<AssetId, AccountId, Balance> for Locks {
	fn get_by_lock(id: frame_support::traits::LockIdentifier, c: AssetId, who: AccountId) -> Balance {
		if id == COLLECTOR_LOCK_ID {
			Locked::get(who, c)
		} else {
			0
		}
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type MultiCurrency = Ledger;
	type LockedBalance = Locks;
	type CreatePoolOrigin = frame_system::EnsureRoot<AccountId>;
	type LBPWeightFunction = LBPWeightFunction;
	type AssetPairAccountId = Pools;
	type WeightInfo = ();
	type MinTradingLimit = GMin;
	type MinPoolLiquidity = GLiq;
	type MaxInRatio = GIn;
	type MaxOutRatio = GOut;
	type BlockNumberProvider = Clock;
}

const A: AssetId = 2; // accumulated
const B: AssetId = 3; // sold by the pool
const WHO: AccountId = 7;
const OWNER: AccountId = 8;
const FEES: AccountId = 9;
const FEES2: AccountId = 10;
const POOL: AccountId = 1203;

#[derive(Clone)]
struct World {
	ra: u128,
	rb: u128,
	wa: u128,
	wb: u128,
	oa: u128,
	ob: u128,
	fa: u128,
	lock: u128,
	p: Pool<AccountId, Block>,
}
fn maybe(b: &'static str, v: &'static str) -> Option<Block> {
	if any::<bool>(b) {
		Some(any::<u32>(v))
	} else {
		None
	}
}
/// A pool of any data; it has both a start and an end or neither.
fn world() -> World {
	let dated = any::<bool>("dated");
	let w = World {
		ra: any("reserve_a"),
		rb: any("reserve_b"),
		wa: any("user_a"),
		wb: any("user_b"),
		oa: any("owner_a"),
		ob: any("owner_b"),
		fa: any("collector_a"),
		lock: any("collected"),
		p: Pool {
			owner: OWNER,
			start: if dated { Some(any::<u32>("start")) } else { None },
			end: if dated { Some(any::<u32>("end")) } else { None },
			assets: (A, B),
			initial_weight: any("initial_weight"),
			final_weight: any("final_weight"),
			weight_curve: WeightCurveType::Linear,
			fee: (any::<u32>("fee_num"), any::<u32>("fee_den")),
			fee_collector: FEES,
			repay_target: any("repay_target"),
		},
	};
	assume(int(w.ra) + int(w.wa) + int(w.oa) + int(w.fa) <= max128());
	assume(int(w.rb) + int(w.wb) + int(w.ob) <= max128());
	assume(w.lock <= w.fa);
	BlockNumber::put(any::<u32>("now"));
	MinTrade::put(any::<u128>("min_trade"));
	MinLiq::put(any::<u128>("min_liquidity"));
	InRatio::put(any::<u128>("in_ratio"));
	OutRatio::put(any::<u128>("out_ratio"));
	PoolData::<Test>::insert(POOL, w.p.clone());
	FeeCollectorWithAsset::<Test>::insert(FEES, A, true);
	Free::insert(POOL, A, w.ra);
	Free::insert(POOL, B, w.rb);
	Free::insert(WHO, A, w.wa);
	Free::insert(WHO, B, w.wb);
	Free::insert(OWNER, A, w.oa);
	Free::insert(OWNER, B, w.ob);
	Free::insert(FEES, A, w.fa);
	if w.lock > 0 {
		Locked::insert(FEES, A, w.lock);
	}
	w
}
fn running(w: &World) -> bool {
	let now = BlockNumber::get();
	match (w.p.start, w.p.end) {
		(Some(s), Some(e)) => s <= now && now <= e,
		_ => false,
	}
}
fn pool_unchanged(w: &World) -> bool {
	PoolData::<Test>::get(POOL) == Some(w.p.clone()) && FeeCollectorWithAsset::<Test>::get(FEES, A) && !FeeCollectorWithAsset::<Test>::get(FEES2, A)
}
fn nothing_happened(w: &World) {
	check(Free::get(POOL, A) == w.ra && Free::get(POOL, B) == w.rb, "a refused call leaves the pool alone");
	check(Free::get(WHO, A) == w.wa && Free::get(WHO, B) == w.wb, "a refused call leaves the account alone");
	check(Free::get(OWNER, A) == w.oa && Free::get(OWNER, B) == w.ob, "a refused call leaves the owner alone");
	check(Free::get(FEES, A) == w.fa && Locked::get(FEES, A) == w.lock, "a refused call leaves the collector alone");
	check(pool_unchanged(w), "a refused call leaves the pool's data alone");
}
fn fee_of(w: &World, v: u128) -> Option<u128> {
	let f = if w.lock < w.p.repay_target { (2, 10) } else { w.p.fee };
	hydra_dx_math::fee::calculate_pool_trade_fee(v, f)
}
/// What the pool's formula gives for that trade at the weights of the current block.
fn formula(w: &World, a_in: bool, sell: bool, v: u128) -> Option<u128> {
	let wa = hydra_dx_math::lbp::calculate_linear_weights(w.p.start.unwrap_or(0), w.p.end.unwrap_or(0), w.p.initial_weight, w.p.final_weight, BlockNumber::get()).ok()?;
	let wb = 100_000_000u32.saturating_sub(wa);
	let (ri, ro, wi, wo) = if a_in { (w.ra, w.rb, wa, wb) } else { (w.rb, w.ra, wb, wa) };
	if sell {
		hydra_dx_math::lbp::calculate_out_given_in(ri, ro, wi, wo, v).ok()
	} else {
		hydra_dx_math::lbp::calculate_in_given_out(ri, ro, wi, wo, v).ok()
	}
}
/// `gi` enters the pool's formula and `go` leaves it; the fee comes off the accumulated asset.
fn traded(w: &World, a_in: bool, gi: u128, go: u128, fee: u128) {
	let (pi, po, ui, uo) = if a_in { (w.ra, w.rb, w.wa, w.wb) } else { (w.rb, w.ra, w.wb, w.wa) };
	let (i, o) = if a_in { (A, B) } else { (B, A) };
	let f = int(fee);
	let n = int(0u128);
	let (fi, fo) = if a_in { (f.clone(), n) } else { (n, f.clone()) };
	check(int(Free::get(POOL, i)) == int(pi) + int(gi) - fi.clone(), "the pool receives what comes in, without the fee");
	check(int(Free::get(WHO, i)) == int(ui) - int(gi), "the trader pays what comes in");
	check(int(Free::get(POOL, o)) == int(po) - int(go), "the pool pays what goes out");
	check(int(Free::get(WHO, o)) == int(uo) + int(go) - fo, "the trader receives what goes out, without the fee");
	check(int(Free::get(FEES, A)) == int(w.fa) + f.clone(), "the collector receives the fee");
	check(int(Locked::get(FEES, A)) == int(w.lock) + f, "all fees collected are locked");
	check(Free::get(OWNER, A) == w.oa && Free::get(OWNER, B) == w.ob, "trades do not touch the owner");
	check(int(gi) * int(InRatio::get()) <= int(pi), "no more than the allowed part comes in");
	check(pool_unchanged(w), "trades do not change the pool's data");
	check(running(w), "trades happen only during the sale");
}
fn trade_sell(a_in: bool) {
	let w = world();
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	let (i, o) = if a_in { (A, B) } else { (B, A) };
	if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), i, o, x, min)).is_ok() {
		check(x > 0, "nothing is sold for zero");
		let out = formula(&w, a_in, true, x);
		check(out.is_some(), "a sale follows the formula");
		let out = out.unwrap_or(0);
		let fee = fee_of(&w, if a_in { x } else { out }).unwrap_or(0);
		traded(&w, a_in, x, out, fee);
		let got = int(Free::get(WHO, o)) - int(if a_in { w.wb } else { w.wa });
		check(got >= int(min), "the seller's limit holds");
		check(int(out) * int(OutRatio::get()) <= int(if a_in { w.rb } else { w.ra }), "no more than the allowed part goes out");
	} else {
		nothing_happened(&w);
	}
}
fn trade_buy(a_in: bool) {
	let w = world();
	let (x, max): (u128, u128) = (any("amount"), any("max_sold"));
	let (i, o) = if a_in { (A, B) } else { (B, A) };
	if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), o, i, x, max)).is_ok() {
		check(x > 0, "nothing is bought for zero");
		let fee0 = if a_in { 0 } else { fee_of(&w, x).unwrap_or(0) };
		let paid = formula(&w, a_in, false, x + fee0);
		check(paid.is_some(), "a purchase follows the formula");
		let paid = paid.unwrap_or(0);
		let fee = if a_in { fee_of(&w, paid).unwrap_or(0) } else { fee0 };
		traded(&w, a_in, paid, x + fee0, fee);
		check(paid <= max, "the buyer's limit holds");
		check(int(x) * int(OutRatio::get()) <= int(if a_in { w.rb } else { w.ra }), "no more than the allowed part is bought");
	} else {
		nothing_happened(&w);
	}
}
fn valid(p: &Pool<AccountId, Block>, now: Block) {
	match (p.start, p.end) {
		(Some(s), Some(e)) => {
			check(now < s && s < e, "a sale starts later than now and ends later than it starts");
			check(e - s < 201600, "a sale takes less than two weeks");
		}
		(None, None) => (),
		_ => check(false, "a sale has both a start and an end or neither"),
	}
	check(p.initial_weight >= 2_000_000 && p.initial_weight < 100_000_000, "the initial weight is within limits");
	check(p.final_weight >= 2_000_000 && p.final_weight < 100_000_000, "the final weight is within limits");
	check(p.fee.1 != 0, "the fee is a fraction");
}

fn update(dates: bool) {
	let w = world();
	let now = BlockNumber::get();
	let by_owner = any::<bool>("by_owner");
	let taken = any::<bool>("new_collector_used");
	if taken {
		FeeCollectorWithAsset::<Test>::insert(FEES2, A, true);
	}
	let start = if dates { maybe("set_start", "new_start") } else { None };
	let end = if dates { maybe("set_end", "new_end") } else { None };
	let iw = if dates { None } else { maybe("set_initial", "new_initial") };
	let fw = if dates { None } else { maybe("set_final", "new_final") };
	let fee = if !dates && any::<bool>("set_fee") { Some((any::<u32>("new_fee_num"), any::<u32>("new_fee_den"))) } else { None };
	let col = if dates && any::<bool>("set_collector") { Some(FEES2) } else { None };
	let tgt = if !dates && any::<bool>("set_target") { Some(any::<u128>("new_target")) } else { None };
	let o = if dates && any::<bool>("set_owner") { Some(WHO) } else { None };
	let who = if by_owner { OWNER } else { WHO };
	if dispatch(|| Pallet::<Test>::update_pool_data(Origin::signed(who), POOL, o, start, end, iw, fw, fee, col, tgt)).is_ok() {
		check(by_owner, "only the owner updates a pool");
		check(!(w.p.start.is_some() && w.p.start.unwrap_or(0) <= now), "a started sale is not changed");
		let mut p = w.p.clone();
		p.owner = o.unwrap_or(OWNER);
		p.start = if start.is_some() { start } else { p.start };
		p.end = if end.is_some() { end } else { p.end };
		p.initial_weight = iw.unwrap_or(p.initial_weight);
		p.final_weight = fw.unwrap_or(p.final_weight);
		p.fee = fee.unwrap_or(p.fee);
		p.fee_collector = col.unwrap_or(FEES);
		p.repay_target = tgt.unwrap_or(p.repay_target);
		check(PoolData::<Test>::get(POOL) == Some(p.clone()), "exactly the given data change");
		valid(&p, now);
		check(FeeCollectorWithAsset::<Test>::get(FEES, A) == col.is_none(), "the old collector is released");
		check(FeeCollectorWithAsset::<Test>::get(FEES2, A) == (taken || col.is_some()), "the new collector is taken");
		check(!(taken && col.is_some()), "an account collects the fees of one pool of an asset");
	} else if !taken {
		nothing_happened(&w);
	}
	check(Free::get(POOL, A) == w.ra && Free::get(POOL, B) == w.rb, "an update moves nothing");
}

harness! {
	fn h_p09_sell_accumulated() {
		trade_sell(true)
	}
	fn h_p09_sell_distributed() {
		trade_sell(false)
	}
	fn h_p09_buy_distributed() {
		trade_buy(true)
	}
	fn h_p09_buy_accumulated() {
		trade_buy(false)
	}
	fn h_p09_create() {
		let w = world();
		let exists = any::<bool>("exists");
		let used = any::<bool>("collector_used");
		if !exists {
			PoolData::<Test>::remove(POOL);
		}
		if !used {
			FeeCollectorWithAsset::<Test>::remove(FEES, A);
		}
		let (x, y): (u128, u128) = (any("amount_a"), any("amount_b"));
		let root = any::<bool>("root");
		let o = if root { Origin::root() } else { Origin::signed(OWNER) };
		if dispatch(|| Pallet::<Test>::create_pool(o, OWNER, A, x, B, y, w.p.initial_weight, w.p.final_weight, WeightCurveType::Linear, w.p.fee, FEES, w.p.repay_target)).is_ok() {
			check(root, "only the given origin creates pools");
			check(!exists, "a pair has one pool");
			check(!used, "an account collects the fees of one pool of an asset");
			check(x >= MinLiq::get() && y >= MinLiq::get(), "no pool below the minimum");
			check(int(Free::get(POOL, A)) == int(w.ra) + int(x) && int(Free::get(POOL, B)) == int(w.rb) + int(y), "the pool receives both amounts");
			check(int(Free::get(OWNER, A)) == int(w.oa) - int(x) && int(Free::get(OWNER, B)) == int(w.ob) - int(y), "the owner pays both amounts");
			check(FeeCollectorWithAsset::<Test>::get(FEES, A), "the collector is taken");
			let mut p = w.p.clone();
			p.start = None;
			p.end = None;
			check(PoolData::<Test>::get(POOL) == Some(p.clone()), "the pool has the given data and no dates");
			valid(&p, BlockNumber::get());
		}
		check(Free::get(WHO, A) == w.wa && Free::get(WHO, B) == w.wb && Free::get(FEES, A) == w.fa, "others are not touched");
	}
	fn h_p09_update_dates() {
		update(true)
	}
	fn h_p09_update_terms() {
		update(false)
	}
	fn h_p09_add_liquidity() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount_a"), any("amount_b"));
		let by_owner = any::<bool>("by_owner");
		let swap = any::<bool>("swap");
		let who = if by_owner { OWNER } else { WHO };
		let r = if swap { dispatch(|| Pallet::<Test>::add_liquidity(Origin::signed(who), (B, y), (A, x))) } else { dispatch(|| Pallet::<Test>::add_liquidity(Origin::signed(who), (A, x), (B, y))) };
		if r.is_ok() {
			check(by_owner, "only the owner adds liquidity");
			check(x > 0 || y > 0, "something is added");
			check(int(Free::get(POOL, A)) == int(w.ra) + int(x) && int(Free::get(POOL, B)) == int(w.rb) + int(y), "the pool receives both amounts");
			check(int(Free::get(OWNER, A)) == int(w.oa) - int(x) && int(Free::get(OWNER, B)) == int(w.ob) - int(y), "the owner pays both amounts");
			check(pool_unchanged(&w), "added liquidity does not change the pool's data");
		} else {
			nothing_happened(&w);
		}
	}
	fn h_p09_remove_liquidity() {
		let w = world();
		let by_owner = any::<bool>("by_owner");
		let who = if by_owner { OWNER } else { WHO };
		let r = dispatch(|| Pallet::<Test>::remove_liquidity(Origin::signed(who), POOL));
		if r.is_ok() {
			check(by_owner, "only the owner removes liquidity");
			check(!running(&w), "liquidity stays during the sale");
			check(Free::get(POOL, A) == 0 && Free::get(POOL, B) == 0, "the pool pays out all");
			check(int(Free::get(OWNER, A)) == int(w.oa) + int(w.ra) && int(Free::get(OWNER, B)) == int(w.ob) + int(w.rb), "the owner receives both reserves");
			check(PoolData::<Test>::get(POOL).is_none(), "the pool is gone");
			check(!FeeCollectorWithAsset::<Test>::get(FEES, A), "the collector is released");
			check(Locked::get(FEES, A) == 0 && Free::get(FEES, A) == w.fa, "the collected fees are unlocked");
		} else {
			nothing_happened(&w);
			check(!by_owner || running(&w), "the owner can always remove liquidity outside the sale");
		}
	}
	fn h_p09_other_pools() {
		let w = world();
		let exists = any::<bool>("exists");
		if !exists {
			PoolData::<Test>::remove(POOL);
		}
		let now = BlockNumber::get();
		let ended = match w.p.end {
			Some(e) => e < now,
			None => false,
		};
		check(DisallowWhenLBPPoolRunning::<Test>::can_create(B, A) == (!exists || ended), "no other pool of the pair before the sale has ended");
	}
}
