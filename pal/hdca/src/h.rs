use frame_support::pallet_prelude::*;
use frame_support::traits::{Contains, Hooks};
use frame_support::weights::{Weight, WeightToFee};
use hrt::*;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::router::{AmmTradeWeights, AmountInAndOut, AssetPair, PoolType, RouteProvider, RouterT, Trade};
use hydradx_traits::{NativePriceOracle, OraclePeriod, PriceOracle};
use pallet_dca::types::{Order, Schedule};
use pallet_dca::{Config, Pallet, RemainingAmounts, RetriesOnError, ScheduleIdSequencer, ScheduleIdsPerBlock, ScheduleOwnership, Schedules};
use sp_runtime::{BoundedVec, Permill};
use symx::*;

hrt::runtime!(pallet_dca);
hrt::cells! {
	CAgain Again: bool = 100;
	CShut Shut: bool = 101;
	CBudget Budget: u128 = 102;
	CLimit Limit: u128 = 103;
	CDiff Diff: u32 = 104;
	CTries Tries: u8 = 105;
	CSeed Seed: u8 = 106;
}
const E18: u128 = 1_000_000_000_000_000_000;
const HDX: AssetId = 0;
const DOT: AssetId = 5;
const USD: AssetId = 7;
const ANN: AccountId = 1;
const BOB: AccountId = 2;
const POOLS: AccountId = 50;
const TREASURY: AccountId = 51;
const NOW: Block = 100;

/// What a route pays: any function of its pools, ends and the amount.
#[inline(never)]
pub fn quote_sell(route: u32, i: AssetId, o: AssetId, x: u128) -> Option<u128> {
	if let Some(r) = choice("quote_sell", route as u128, i as u128, o as u128, x) {
		return r;
	}
	if x == 77 {
		return None;
	}
	Some(x / (1 + route as u128 % 4))
}
#[inline(never)]
pub fn quote_buy(route: u32, i: AssetId, o: AssetId, x: u128) -> Option<u128> {
	if let Some(r) = choice("quote_buy", route as u128, i as u128, o as u128, x) {
		return r;
	}
	if x == 77 {
		return None;
	}
	Some((x / (2 + route as u128)).saturating_add(o as u128))
}
/// The price of a route over a period.
#[inline(never)]
pub fn quote_price(route: u32, i: AssetId, o: AssetId, period: u32) -> Option<u128> {
	if let Some(r) = choice("quote_price", route as u128, i as u128, o as u128, period as u128) {
		return r;
	}
	Some(E18 + 1000 * period as u128)
}
/// The price of an asset in the native one.
#[inline(never)]
pub fn quote_native(a: AssetId) -> Option<u128> {
	if let Some(r) = choice("quote_native", a as u128, 0, 0, 0) {
		return r;
	}
	Some(E18 + 1 + a as u128)
}
#[inline(never)]
pub fn quote_fee(w: u64, p: u64) -> Option<u128> {
	if let Some(r) = choice("quote_fee", w as u128, p as u128, 0, 0) {
		return r;
	}
	Some(w as u128)
}
fn kind(r: &[Trade<AssetId>]) -> u32 {
	let k = match r[0].pool {
		PoolType::XYK => 0,
		PoolType::LBP => 1,
		PoolType::Stableswap(_) => 2,
		PoolType::Omnipool => 3,
	};
	k + 4 * r.len() as u32
}
#[inline(never)]
fn refused() -> DispatchError {
	if Again::get() {
		DispatchError::Other("again")
	} else {
		DispatchError::Other("never")
	}
}
pub struct Retriable;
impl Contains<DispatchError> for Retriable {
	fn contains(e: &DispatchError) -> bool {
		*e == DispatchError::Other("again")
	}
}
type Amounts = Vec<AmountInAndOut<Balance>>;
fn ends(r: &[Trade<AssetId>]) -> (AssetId, AssetId) {
	(r[0].asset_in, r[r.len() - 1].asset_out)
}
pub struct Router;
impl Router {
	fn swap(o: Origin, i: AssetId, x: u128, out: AssetId, y: u128) -> DispatchResult {
		let who = match o.0 {
			frame_system::RawOrigin::Signed(w) => w,
			_ => return Err(refused()),
		};
		if Shut::get() {
			return Err(refused());
		}
		Ledger::transfer(i, &who, &POOLS, x)?;
		Ledger::transfer(out, &POOLS, &who, y)
	}
}
use orml_traits::MultiCurrency;
impl RouterT<Origin, AssetId, Balance, Trade<AssetId>, AmountInAndOut<Balance>> for Router {
	fn sell(o: Origin, i: AssetId, out: AssetId, x: Balance, min: Balance, r: Vec<Trade<AssetId>>) -> DispatchResult {
		if ends(&r) != (i, out) {
			return Err(DispatchError::Other("route"));
		}
		let y = quote_sell(kind(&r), i, out, x).ok_or(refused())?;
		if y < min {
			return Err(DispatchError::Other("limit"));
		}
		Self::swap(o, i, x, out, y)
	}
	fn buy(o: Origin, i: AssetId, out: AssetId, y: Balance, max: Balance, r: Vec<Trade<AssetId>>) -> DispatchResult {
		if ends(&r) != (i, out) {
			return Err(DispatchError::Other("route"));
		}
		let x = quote_buy(kind(&r), i, out, y).ok_or(refused())?;
		if x > max {
			return Err(DispatchError::Other("limit"));
		}
		Self::swap(o, i, x, out, y)
	}
	fn calculate_sell_trade_amounts(r: &[Trade<AssetId>], x: Balance) -> Result<Amounts, DispatchError> {
		let (i, o) = ends(r);
		let y = quote_sell(kind(r), i, o, x).ok_or(refused())?;
		Ok(vec![AmountInAndOut { amount_in: x, amount_out: 1 }, AmountInAndOut { amount_in: 1, amount_out: y }])
	}
	fn calculate_buy_trade_amounts(r: &[Trade<AssetId>], y: Balance) -> Result<Amounts, DispatchError> {
		let (i, o) = ends(r);
		let x = quote_buy(kind(r), i, o, y).ok_or(refused())?;
		Ok(vec![AmountInAndOut { amount_in: 1, amount_out: y }, AmountInAndOut { amount_in: x, amount_out: 1 }])
	}
	fn set_route(_: Origin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> DispatchResultWithPostInfo {
		unimplemented!()
	}
	fn force_insert_route(_: Origin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> DispatchResultWithPostInfo {
		unimplemented!()
	}
}
impl RouteProvider<AssetId> for Router {}
impl AmmTradeWeights<Trade<AssetId>> for Router {
	fn sell_weight(_: &[Trade<AssetId>]) -> Weight {
		Weight::from_parts(7, 0)
	}
	fn buy_weight(_: &[Trade<AssetId>]) -> Weight {
		Weight::from_parts(8, 0)
	}
	fn calculate_buy_trade_amounts_weight(_: &[Trade<AssetId>]) -> Weight {
		Weight::from_parts(9, 0)
	}
	fn sell_and_calculate_sell_trade_amounts_weight(r: &[Trade<AssetId>]) -> Weight {
		Weight::from_parts(100 * r.len() as u64, 3)
	}
	fn buy_and_calculate_buy_trade_amounts_weight(r: &[Trade<AssetId>]) -> Weight {
		Weight::from_parts(200 * r.len() as u64, 4)
	}
	fn set_route_weight(_: &[Trade<AssetId>]) -> Weight {
		Weight::zero()
	}
	fn force_insert_route_weight() -> Weight {
		Weight::zero()
	}
	fn get_route_weight() -> Weight {
		Weight::zero()
	}
	fn calculate_spot_price_with_fee_weight(_: &[Trade<AssetId>]) -> Weight {
		Weight::zero()
	}
}
pub struct Works;
impl pallet_dca::WeightInfo for Works {
	fn on_initialize_with_buy_trade() -> Weight {
		Weight::from_parts(2000, 20)
	}
	fn on_initialize_with_sell_trade() -> Weight {
		Weight::from_parts(1000, 10)
	}
	fn on_initialize_with_empty_block() -> Weight {
		Weight::from_parts(5, 5)
	}
	fn schedule() -> Weight {
		Weight::from_parts(6, 6)
	}
	fn terminate() -> Weight {
		Weight::from_parts(7, 7)
	}
}
pub struct Prices;
impl PriceOracle<AssetId> for Prices {
	type Price = EmaPrice;
	fn price(r: &[Trade<AssetId>], p: OraclePeriod) -> Option<EmaPrice> {
		let (i, o) = ends(r);
		let p = match p {
			OraclePeriod::LastBlock => 0,
			OraclePeriod::Short => 1,
			_ => 2,
		};
		quote_price(kind(r), i, o, p).map(|n| EmaPrice::new(n, E18))
	}
}
impl NativePriceOracle<AssetId, EmaPrice> for Prices {
	fn price(a: AssetId) -> Option<EmaPrice> {
		quote_native(a).map(|n| EmaPrice::new(n, E18))
	}
}
pub struct Fees;
impl WeightToFee for Fees {
	type Balance = Balance;
	fn weight_to_fee(w: &Weight) -> Balance {
		quote_fee(w.ref_time(), w.proof_size()).unwrap_or(3)
	}
}
pub struct Relay;
impl hydradx_adapters::RelayChainBlockHashProvider for Relay {
	fn parent_hash() -> Option<hydradx_adapters::Hash> {
		let mut h = [0; 32];
		h[0] = Seed::get();
		Some(hydradx_adapters::Hash(h))
	}
}
hrt::gets! {
	MaxDiff: Permill = Permill::from_parts(Diff::get());
	PerBlock: u32 = 2;
	MaxTries: u8 = Tries::get();
	MinLimit: u128 = Limit::get();
	Native: AssetId = HDX;
	MinBudget: u128 = Budget::get();
	Receiver: AccountId = TREASURY;
	NamedId: [u8; 8] = *b"dcaorder";
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type Currencies = Ledger;
	type RelayChainBlockHashProvider = Relay;
	type RandomnessProvider = Pallet<Test>;
	type OraclePriceProvider = Prices;
	type NativePriceOracle = Prices;
	type RouteExecutor = Router;
	type RouteProvider = Router;
	type RetryOnError = Retriable;
	type MaxPriceDifferenceBetweenBlocks = MaxDiff;
	type MaxSchedulePerBlock = PerBlock;
	type MaxNumberOfRetriesOnError = MaxTries;
	type MinimumTradingLimit = MinLimit;
	type NativeAssetId = Native;
	type MinBudgetInNativeCurrency = MinBudget;
	type FeeReceiver = Receiver;
	type NamedReserveId = NamedId;
	type WeightToFee = Fees;
	type AmmTradeWeights = Router;
	type WeightInfo = Works;
}
type P = Pallet<Test>;
type Plan = Schedule<AccountId, AssetId, Block>;

fn amt(n: &'static str) -> u128 {
	within::<u128>(n, 0, 1 << 100)
}
fn route(own: bool, i: AssetId, o: AssetId) -> BoundedVec<Trade<AssetId>, sp_runtime::traits::ConstU32<5>> {
	let v = if own {
		vec![Trade { pool: PoolType::XYK, asset_in: i, asset_out: 9 }, Trade { pool: PoolType::LBP, asset_in: 9, asset_out: o }]
	} else {
		vec![]
	};
	BoundedVec::try_from(v).unwrap()
}
/// The number under which the quotes know a route.
fn forth(own: bool) -> u32 {
	if own { 8 } else { 7 }
}
fn back(own: bool) -> u32 {
	if own { 9 } else { 7 }
}
#[derive(Clone, Copy)]
struct Ask {
	sell: bool,
	own: bool,
	i: AssetId,
	o: AssetId,
	x: u128,
	lim: u128,
}
fn order(a: &Ask) -> Order<AssetId> {
	if a.sell {
		Order::Sell { asset_in: a.i, asset_out: a.o, amount_in: a.x, min_amount_out: a.lim, route: route(a.own, a.i, a.o) }
	} else {
		Order::Buy { asset_in: a.i, asset_out: a.o, amount_out: a.x, max_amount_in: a.lim, route: route(a.own, a.i, a.o) }
	}
}
fn ask(sell: bool, own: bool, i: AssetId, o: AssetId) -> Ask {
	Ask { sell, own, i, o, x: amt("order"), lim: amt("limit") }
}
fn native(a: AssetId, x: u128) -> Option<u128> {
	if a == HDX {
		return Some(x);
	}
	let n = quote_native(a)?;
	assume(n <= 1 << 80);
	let q = (int(x) * int(n) + int(E18) - int(1u128)) / int(E18);
	Some(amount(&q))
}
fn fee(a: &Ask) -> Option<u128> {
	let legs = if a.own { 2 } else { 1 };
	let f = if a.sell { quote_fee(1000 + 100 * legs, 13) } else { quote_fee(2000 + 200 * legs, 24) }.unwrap_or(3);
	assume(f <= 1 << 80);
	native(a.i, f)
}
fn listed(b: Block) -> Vec<u32> {
	ScheduleIdsPerBlock::<Test>::get(b).to_vec()
}
fn list(b: Block, v: Vec<u32>) {
	ScheduleIdsPerBlock::<Test>::insert(b, BoundedVec::try_from(v).unwrap());
}
fn constants() {
	Budget::put(within::<u128>("budget", 0, 1 << 80));
	Limit::put(amt("min_trade"));
	Diff::put(within::<u32>("diff", 0, 1_000_000));
	Tries::put(within::<u8>("tries", 0, 4));
}
/// What becomes of a schedule in the block it is due.
struct Then {
	/// Taken out of the budget for the execution.
	fee: u128,
	/// Sold and bought.
	x: u128,
	y: u128,
	/// The block of the next attempt and the attempts so far, or `None` when the schedule ends.
	next: Option<(Block, u8)>,
}
fn gone(fee: u128) -> Then {
	Then { fee, x: 0, y: 0, next: None }
}
struct Job {
	id: u32,
	who: AccountId,
	a: Ask,
	period: Block,
	total: u128,
	tries: Option<u8>,
	steady: Option<u32>,
	slip: Option<u32>,
	rem: u128,
	done: u8,
}
fn plan(j: &Job) -> Plan {
	Schedule {
		owner: j.who,
		period: j.period,
		total_amount: j.total,
		max_retries: j.tries,
		stability_threshold: j.steady.map(|v| Permill::from_parts(v)),
		slippage: j.slip.map(|v| Permill::from_parts(v)),
		order: order(&j.a),
	}
}
fn again(j: &Job, fee: u128) -> Then {
	let most = j.tries.unwrap_or(Tries::get());
	if j.done >= most {
		return gone(fee);
	}
	let mut wait: Block = 10;
	let mut k = 0u8;
	while k < j.done {
		wait = wait * 2;
		k += 1;
	}
	Then { fee, x: 0, y: 0, next: Some((NOW + wait, j.done + 1)) }
}
/// The price moved too much, or is not known.
fn moved(j: &Job) -> bool {
	let (p, q) = match (quote_price(forth(j.a.own), j.a.i, j.a.o, 0), quote_price(forth(j.a.own), j.a.i, j.a.o, 1)) {
		(Some(p), Some(q)) => (p, q),
		_ => return true,
	};
	assume(p <= 1 << 100);
	assume(q <= 1 << 100);
	let most = j.steady.unwrap_or(Diff::get());
	let d = if p > q { p - q } else { q - p };
	// 2 * difference > threshold of the sum, at eighteen digits
	let bound = (int(most) * int(1_000_000_000_000u128) * (int(p) + int(q))) / int(E18);
	(int(d) * int(2u128)).gt(&bound)
}
fn failed(j: &Job, fee: u128) -> Then {
	if Again::get() {
		again(j, fee)
	} else {
		gone(fee)
	}
}
fn expect(j: &Job) -> Then {
	let fee = match fee(&j.a) {
		Some(f) => f,
		None => return gone(0),
	};
	if fee > j.rem {
		return gone(0);
	}
	let rem = j.rem - fee;
	if moved(j) {
		return again(j, fee);
	}
	let slip = j.slip.unwrap_or(Diff::get());
	let (x, y);
	if j.a.sell {
		x = if rem < j.a.x { rem } else { j.a.x };
		let p = match quote_price(back(j.a.own), j.a.o, j.a.i, 0) {
			Some(p) => p,
			None => return gone(fee),
		};
		assume(p <= 1 << 80);
		let est = amount(&((int(p) * int(x)) / int(E18)));
		let off = amount(&((int(est) * int(slip)) / int(1_000_000u128)));
		check(off <= est, "a slippage is a part");
		assume(off <= est);
		let least = amount(&(int(est) - int(off)));
		y = match quote_sell(forth(j.a.own), j.a.i, j.a.o, x) {
			Some(y) => y,
			None => return failed(j, fee),
		};
		assume(y <= 1 << 100);
		if j.a.lim > least {
			if y < j.a.lim {
				return again(j, fee);
			}
		} else if y < least {
			return again(j, fee);
		}
	} else {
		y = j.a.x;
		x = match quote_buy(forth(j.a.own), j.a.i, j.a.o, y) {
			Some(x) => x,
			None => return failed(j, fee),
		};
		if x > rem {
			return gone(fee);
		}
		let p = quote_price(forth(j.a.own), j.a.i, j.a.o, 0).unwrap_or(0);
		let est = amount(&((int(p) * int(y)) / int(E18)));
		let off = amount(&((int(est) * int(slip)) / int(1_000_000u128)));
		let most = amount(&(int(est) + int(off)));
		if j.a.lim < most {
			if x > j.a.lim {
				return again(j, fee);
			}
		} else if x > most {
			return again(j, fee);
		}
	}
	if Shut::get() {
		return failed(j, fee);
	}
	let rest = rem - x;
	let end = Then { fee, x, y, next: None };
	if int(rest).lt(&(int(fee) * int(20u128))) || rest < Limit::get() {
		return end;
	}
	if !j.a.sell && int(rest).lt(&(int(x) + int(fee))) {
		return end;
	}
	if j.period == 0 {
		return end;
	}
	Then { fee, x, y, next: Some((NOW + j.period, 0)) }
}
fn put(j: &Job) {
	Schedules::<Test>::insert(j.id, plan(j));
	ScheduleOwnership::<Test>::insert(j.who, j.id, ());
	RemainingAmounts::<Test>::insert(j.id, j.rem);
	RetriesOnError::<Test>::insert(j.id, j.done);
}
fn kept(j: &Job) -> bool {
	Schedules::<Test>::get(j.id) == Some(plan(j)) && ScheduleOwnership::<Test>::get(j.who, j.id) == Some(())
}
fn left(j: &Job) {
	check(Schedules::<Test>::get(j.id).is_none(), "an ended schedule is no longer stored");
	check(ScheduleOwnership::<Test>::get(j.who, j.id).is_none(), "an ended schedule has no owner");
	check(RemainingAmounts::<Test>::get(j.id).is_none(), "an ended schedule has no budget");
	check(RetriesOnError::<Test>::get(j.id) == 0, "an ended schedule has no retries");
}
/// What the block did to a schedule.
fn settled(j: &Job, t: &Then, alone: bool) -> u128 {
	let used = int(t.fee) + int(t.x);
	let now = amount(&(int(j.rem) - used));
	match t.next {
		Some((b, k)) => {
			check(kept(j), "a schedule that goes on is kept as it is");
			check(RemainingAmounts::<Test>::get(j.id) == Some(now), "the fee and what was sold leave the budget");
			check(RetriesOnError::<Test>::get(j.id) == k, "failed attempts are counted, and forgotten after a trade");
			check(if alone { listed(b) == vec![j.id] } else { listed(b).contains(&j.id) }, "the schedule is planned for its next block");
			now
		}
		None => {
			left(j);
			0
		}
	}
}
/// A schedule with any budget: too little for the fee, for the fee and not the whole trade, or for both and anything more.
fn job(mut a: Ask, done: u8) -> Job {
	let more = amt("remaining");
	let rem = match fee(&a) {
		None => more,
		Some(f) => {
			if any::<bool>("unpaid") {
				assume(more < f);
				more
			} else if any::<bool>("whole") {
				let x = if a.sell { Some(a.x) } else { quote_buy(forth(a.own), a.i, a.o, a.x) };
				if let Some(x) = x {
					assume(x <= 1 << 100);
				}
				amount(&(int(f) + int(x.unwrap_or(0)) + int(more)))
			} else {
				if a.sell {
					a.x = amount(&(int(more) + int(1u128) + int(a.x)));
				} else if let Some(x) = quote_buy(forth(a.own), a.i, a.o, a.x) {
					assume(more < x);
				}
				amount(&(int(f) + int(more)))
			}
		}
	};
	Job { id: 3, who: ANN, a, period: within::<u32>("period", 0, 1_000), total: amt("total"), tries: None, steady: None, slip: None, rem, done }
}
/// A block with a schedule that cannot be executed (or has ended) and another one.
fn after(first: Option<Job>) {
	let mut x = ask(true, false, USD, DOT);
	x.x = amt("order_b");
	x.lim = 0;
	let left = amt("left_b");
	let f = match fee(&x) {
		Some(f) => f,
		None => return,
	};
	let b = Job { id: 4, who: BOB, a: x, period: 30, total: amt("total_b"), tries: Some(0), steady: Some(1_000_000), slip: Some(1_000_000), rem: amount(&(int(f) + int(x.x) + int(left))), done: 0 };
	put(&b);
	list(NOW, vec![3, 4]);
	BlockNumber::put(NOW);
	Free::insert(POOLS, USD, 1 << 110);
	Free::insert(POOLS, DOT, 1 << 110);
	Reserved::insert(BOB, USD, b.rem);
	assume(!moved(&b));
	let t = expect(&b);
	assume(t.y > 0);
	let s = first.as_ref().map(|a| {
		put(a);
		Reserved::insert(ANN, DOT, a.rem);
		expect(a)
	});
	P::on_initialize(NOW);
	check(listed(NOW).is_empty(), "a block is executed once");
	let nb = settled(&b, &t, false);
	check(Reserved::get(BOB, USD) == nb, "what remains of the budget is what is reserved");
	check(Free::get(BOB, DOT) == t.y, "a schedule is executed after one that is not");
	check(Free::get(TREASURY, USD) == t.fee, "the receiver of fees gets the fees");
	if let (Some(a), Some(s)) = (first, s) {
		let na = settled(&a, &s, false);
		check(Reserved::get(ANN, DOT) == na, "what remains of the budget is what is reserved");
		check(Free::get(TREASURY, DOT) == s.fee, "the receiver of fees gets the fees");
	}
}
fn run(j: Job) {
	let rest = amt("other_reserves");
	let (free, out) = (amt("free"), amt("had"));
	put(&j);
	list(NOW, vec![3]);
	BlockNumber::put(NOW);
	ScheduleIdSequencer::<Test>::put(9);
	Free::insert(ANN, j.a.i, free);
	Free::insert(ANN, j.a.o, out);
	Free::insert(POOLS, j.a.o, 1 << 110);
	Reserved::insert(ANN, j.a.i, amount(&(int(rest) + int(j.rem))));
	let t = expect(&j);
	P::on_initialize(NOW);
	check(listed(NOW).is_empty(), "a block is executed once");
	let now = settled(&j, &t, true);
	check(int(Reserved::get(ANN, j.a.i)).eq(&(int(rest) + int(now))), "what remains of the budget is what is reserved");
	check(int(Free::get(ANN, j.a.i)).eq(&(int(free) + int(j.rem) - int(now) - int(t.fee) - int(t.x))), "what an ended schedule has left returns to its owner");
	check(int(Free::get(ANN, j.a.o)).eq(&(int(out) + int(t.y))), "the owner receives what was bought");
	check(Free::get(TREASURY, j.a.i) == t.fee, "the receiver of fees gets the fee");
	check(Free::get(POOLS, j.a.i) == t.x, "only the trade is sold");
	check(ScheduleIdSequencer::<Test>::get() == 9, "no identifier is used");
}
/// Sales: any prices and quotes, either route, with the pallet's or the schedule's own limits.
/// Failing pools: an error to retry on or not, at any number of attempts.
/// Two schedules in one block: each has its own outcome, in either order.
/// A schedule is executed in its block only.
fn scheduling(a: Ask) {
	constants();
	let who = if any::<bool>("other") { BOB } else { ANN };
	let mut j = job(a, 0);
	j.id = 6;
	let free = amt("free");
	let held = amt("held");
	BlockNumber::put(NOW);
	ScheduleIdSequencer::<Test>::put(6);
	Free::insert(ANN, a.i, free);
	Reserved::insert(ANN, a.i, held);
	let start = if any::<bool>("given") { Some(within::<u32>("start", 90, 200)) } else { None };
	let at = start.unwrap_or(NOW + 1);
	let ok = allowed(&j, who, free) && at > NOW;
	let p = plan(&j);
	let r = dispatch(|| P::schedule(Origin::signed(who), p, start));
	check(r.is_ok() == ok, "a schedule is accepted exactly when its budget, amounts and block are");
	if r.is_ok() {
		check(kept(&j), "a schedule is stored as ordered");
		check(RemainingAmounts::<Test>::get(6) == Some(j.total), "the budget is the total amount");
		check(RetriesOnError::<Test>::get(6) == 0, "there were no attempts");
		check(listed(at) == vec![6], "the first execution is planned");
		check(ScheduleIdSequencer::<Test>::get() == 7, "identifiers are used once");
		check(int(Reserved::get(ANN, a.i)).eq(&(int(held) + int(j.total))), "the total amount is reserved");
		check(int(Free::get(ANN, a.i)).eq(&(int(free) - int(j.total))), "the total amount is reserved");
	} else {
		left(&j);
		check(listed(at).is_empty(), "nothing is planned");
		check(ScheduleIdSequencer::<Test>::get() == 6, "no identifier is used");
		check(Reserved::get(ANN, a.i) == held, "nothing is reserved");
		check(Free::get(ANN, a.i) == free, "nothing is reserved");
	}
}
fn allowed(j: &Job, who: AccountId, free: u128) -> bool {
	if who != ANN {
		return false;
	}
	match native(j.a.i, Budget::get()) {
		Some(b) => {
			if j.total < b {
				return false;
			}
		}
		None => return false,
	}
	let f = match fee(&j.a) {
		Some(f) => f,
		None => return false,
	};
	let x = if j.a.sell {
		j.a.x
	} else {
		match quote_buy(forth(j.a.own), j.a.i, j.a.o, j.a.x) {
			Some(x) => x,
			None => return false,
		}
	};
	int(x).ge(&(int(f) * int(20u128))) && x >= Limit::get() && (int(x) + int(f)).le(&int(j.total)) && free >= j.total
}
/// Full blocks: the schedule is put into a later one, and no block takes more than it can.
fn another() -> u32 {
	let i = within::<u32>("another", 0, 9);
	assume(i != 3);
	i
}
fn terminating(ids: Vec<u32>) {
	constants();
	let j = job(ask(any::<bool>("sell"), false, DOT, USD), 1);
	let held = amt("held");
	put(&j);
	BlockNumber::put(NOW);
	let b = within::<u32>("planned", 101, 103);
	let names = if any::<bool>("given") { Some(102u32) } else { None };
	list(b, ids.clone());
	Reserved::insert(ANN, DOT, amount(&(int(held) + int(j.rem))));
	let root = any::<bool>("root");
	let who = if any::<bool>("other") { BOB } else { ANN };
	let ok = (root || who == ANN) && names.unwrap_or(101) == b;
	let r = dispatch(|| P::terminate(if root { Origin::root() } else { Origin::signed(who) }, 3, names));
	check(r.is_ok() == ok, "the owner and the technical origin can end a planned schedule");
	if ok {
		left(&j);
		let mut rest = vec![];
		for i in ids {
			if i != 3 {
				rest.push(i);
			}
		}
		check(listed(b) == rest, "the schedule is no longer planned, the others are");
		check(Reserved::get(ANN, DOT) == held, "what remained is no longer reserved");
		check(Free::get(ANN, DOT) == j.rem, "what remained is free");
	} else {
		check(kept(&j) && RemainingAmounts::<Test>::get(3) == Some(j.rem) && RetriesOnError::<Test>::get(3) == 1, "the schedule goes on");
		check(listed(b) == ids, "the schedule stays planned");
		check(Free::get(ANN, DOT) == 0, "what remains stays reserved");
	}
}
harness! {
	fn h_p16_execute_sell() {
		constants();
		let j = job(ask(true, false, DOT, USD), 0);
		run(j);
	}
	fn h_p16_execute_sell_native() {
		constants();
		let mut j = job(ask(true, true, HDX, USD), 1);
		j.slip = Some(within::<u32>("slip", 0, 1_000_000));
		run(j);
	}
	fn h_p16_execute_buy() {
		constants();
		let mut j = job(ask(false, true, DOT, USD), 1);
		j.steady = Some(within::<u32>("steady", 0, 1_000_000));
		run(j);
	}
	fn h_p16_execute_buy_native() {
		constants();
		let mut j = job(ask(false, false, HDX, USD), 0);
		j.tries = Some(within::<u8>("own_tries", 0, 3));
		run(j);
	}
	fn h_p16_failed_sell() {
		constants();
		Again::put(any::<bool>("again"));
		Shut::put(true);
		run(job(ask(true, false, DOT, USD), 2));
	}
	fn h_p16_failed_buy() {
		constants();
		Again::put(any::<bool>("again"));
		Shut::put(true);
		let mut j = job(ask(false, false, DOT, USD), 3);
		j.tries = Some(within::<u8>("own_tries", 0, 5));
		run(j);
	}
	fn h_p16_execute_two() {
		constants();
		let mut w = ask(true, false, DOT, USD);
		w.lim = 0;
		let more = amt("left_a");
		let f = match fee(&w) {
			Some(f) => f,
			None => return,
		};
		let a = Job { id: 3, who: ANN, a: w, period: 30, total: amt("total"), tries: Some(0), steady: None, slip: Some(1_000_000), rem: amount(&(int(f) + int(w.x) + int(more))), done: 0 };
		let mut x = ask(true, false, USD, DOT);
		x.x = amt("order_b");
		x.lim = 0;
		let left = amt("left_b");
		let f = match fee(&x) {
			Some(f) => f,
			None => return,
		};
		let b = Job { id: 4, who: BOB, a: x, period: 30, total: amt("total_b"), tries: Some(0), steady: None, slip: Some(1_000_000), rem: amount(&(int(f) + int(x.x) + int(left))), done: 0 };
		put(&a);
		put(&b);
		list(NOW, vec![3, 4]);
		BlockNumber::put(NOW);
		Free::insert(POOLS, USD, 1 << 110);
		Free::insert(POOLS, DOT, 1 << 110);
		Reserved::insert(ANN, DOT, a.rem);
		Reserved::insert(BOB, USD, b.rem);
		let s = expect(&a);
		assume(s.next.is_some());
		assume(!moved(&b));
		let t = expect(&b);
		P::on_initialize(NOW);
		check(listed(NOW).is_empty(), "a block is executed once");
		let (na, nb) = (settled(&a, &s, false), settled(&b, &t, false));
		check(Reserved::get(ANN, DOT) == na, "what remains of the budget is what is reserved");
		check(Reserved::get(BOB, USD) == nb, "what remains of the budget is what is reserved");
		check(int(Free::get(ANN, DOT)).eq(&(int(a.rem) - int(na) - int(s.fee) - int(s.x))), "the rest returns to the owner");
		check(int(Free::get(BOB, USD)).eq(&(int(b.rem) - int(nb) - int(t.fee) - int(t.x))), "the rest returns to the owner");
		check(Free::get(ANN, USD) == s.y, "each receives what was bought");
		check(Free::get(BOB, DOT) == t.y, "each receives what was bought");
		check(Free::get(TREASURY, DOT) == s.fee, "the receiver of fees gets the fees");
		check(Free::get(TREASURY, USD) == t.fee, "the receiver of fees gets the fees");
	}
	fn h_p16_after_unstable() {
		constants();
		let mut w = ask(true, false, DOT, USD);
		w.lim = 0;
		let more = amt("left_a");
		let f = match fee(&w) {
			Some(f) => f,
			None => return,
		};
		let a = Job { id: 3, who: ANN, a: w, period: 30, total: amt("total"), tries: Some(3), steady: None, slip: None, rem: amount(&(int(f) + int(w.x) + int(more))), done: within::<u8>("done", 0, 3) };
		assume(moved(&a));
		after(Some(a));
	}
	fn h_p16_after_ended() {
		constants();
		after(None);
	}
	fn h_p16_other_block() {
		constants();
		let j = job(ask(true, false, DOT, USD), 1);
		put(&j);
		list(NOW + 1, vec![3]);
		list(NOW, vec![8]);
		BlockNumber::put(NOW);
		Reserved::insert(ANN, DOT, j.rem);
		P::on_initialize(NOW);
		check(kept(&j), "a schedule waits for its block");
		check(RemainingAmounts::<Test>::get(3) == Some(j.rem), "a schedule waits for its block");
		check(RetriesOnError::<Test>::get(3) == 1, "a schedule waits for its block");
		check(listed(NOW + 1) == vec![3], "a schedule waits for its block");
		check(Reserved::get(ANN, DOT) == j.rem, "a schedule waits for its block");
		check(listed(NOW).is_empty(), "an ended schedule is skipped");
		check(Schedules::<Test>::get(8).is_none(), "an ended schedule is skipped");
	}
	fn h_p16_schedule_sell() {
		scheduling(ask(true, true, DOT, USD));
	}
	fn h_p16_schedule_buy() {
		scheduling(ask(false, false, HDX, USD));
	}
	fn h_p16_schedule_buy_route() {
		scheduling(ask(false, true, DOT, HDX));
	}
	fn h_p16_full_blocks() {
		constants();
		let a = ask(true, false, HDX, USD);
		let mut j = job(a, 0);
		j.id = 6;
		BlockNumber::put(NOW);
		ScheduleIdSequencer::<Test>::put(6);
		Free::insert(ANN, HDX, amt("free"));
		list(101, vec![5, 2]);
		list(102, vec![4, 1]);
		let third = any::<bool>("third_full");
		list(104, if third { vec![3, 0] } else { vec![3] });
		list(105, vec![7]);
		let p = plan(&j);
		let r = dispatch(|| P::schedule(Origin::signed(ANN), p, Some(101)));
		if r.is_ok() {
			let mut found = 0u32;
			let mut b = 101;
			while b < 115 {
				let v = listed(b);
				check(v.len() <= 2, "no block takes more than it can");
				if v.contains(&6) {
					found += 1;
					check(b == 105 || (b == 104 && !third) || (third && b > 107 && b < 112), "the schedule is planned in a block with room");
					check(v[v.len() - 1] == 6, "the schedule is planned after those before it");
				}
				b += 1;
			}
			check(found == 1, "the schedule is planned once");
			check(listed(101) == vec![5, 2] && listed(102) == vec![4, 1], "planned schedules stay");
			check(listed(104)[0] == 3 && listed(105)[0] == 7, "planned schedules stay");
		}
	}
	fn h_p16_terminate() {
		terminating(vec![3]);
	}
	fn h_p16_terminate_first() {
		terminating(vec![3, another()]);
	}
	fn h_p16_terminate_last() {
		terminating(vec![another(), 3]);
	}
}
