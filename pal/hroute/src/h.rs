use frame_support::pallet_prelude::*;
use frame_support::weights::Weight;
use hrt::*;
use hydradx_traits::router::{AssetPair, ExecutorError, PoolType, RefundEdCalculator, RouteProvider, RouteSpotPriceProvider, Trade, TradeExecution};
use orml_traits::MultiCurrency;
use pallet_route_executor::{Config, Pallet, Routes};
use sp_runtime::FixedU128;
use symx::*;

hrt::runtime!(pallet_route_executor);
hrt::cells! {
	CRefund Refund: u128 = 102;
	CMode Mode: u32 = 103;
	CDepth Depth: u128 = 104;
}
macro_rules! table { ($p:ident $n:ident : $k:ty => $v:ty = $id:expr) => {
	pub struct $p;
	impl frame_support::storage::StorageInstance for $p { fn id() -> u64 { $id } }
	pub type $n = StorageMap<$p, Identity, $k, $v, ValueQuery>;
} }
// What a pool takes less and pays more or less than it should, by asset.
table!(PShort Short: AssetId => u128 = 150);
table!(PExtra Extra: AssetId => u128 = 151);
table!(PLess Less: AssetId => u128 = 152);
// Pools that refuse sales of an asset.
table!(PShut Shut: AssetId => bool = 153);

/// What a pool pays for an amount: any function of pool, assets and amount.
#[inline(never)]
pub fn quote_sell(pool: u32, i: AssetId, o: AssetId, x: u128) -> Option<u128> {
	if let Some(r) = choice("quote_sell", pool as u128, i as u128, o as u128, x) {
		return r;
	}
	if i == 13 || x == 77 {
		return None;
	}
	Some((x / (1 + (pool as u128 + 2) % 4)).saturating_add(o as u128))
}
/// What a pool takes for an amount.
#[inline(never)]
pub fn quote_buy(pool: u32, i: AssetId, o: AssetId, x: u128) -> Option<u128> {
	if let Some(r) = choice("quote_buy", pool as u128, i as u128, o as u128, x) {
		return r;
	}
	if i == 13 || x == 77 {
		return None;
	}
	Some((x / (2 + pool as u128)).saturating_add(o as u128))
}
/// What a pool says one costs in the other.
#[inline(never)]
pub fn quote_price(pool: u32, i: AssetId, o: AssetId) -> Option<u128> {
	if let Some(r) = choice("quote_price", pool as u128, i as u128, o as u128, 0) {
		return r;
	}
	if i == 13 {
		return None;
	}
	Some(1_000_000_000_000_000_000 * (1 + i as u128 + 2 * pool as u128) / (1 + o as u128))
}
fn kind(p: PoolType<AssetId>) -> u32 {
	match p {
		PoolType::XYK => 0,
		PoolType::LBP => 1,
		PoolType::Stableswap(_) => 2,
		PoolType::Omnipool => 3,
	}
}
const POOLS: AccountId = 50;
type Answer<T> = Result<T, ExecutorError<DispatchError>>;
fn no<T>() -> Answer<T> {
	Err(refused())
}
#[inline(never)]
fn refused() -> ExecutorError<DispatchError> {
	ExecutorError::Error(DispatchError::Other("pool"))
}
/// Pools of one or two kinds; they pay the quote for what they take unless the harness makes them cheat.
pub struct Amm<const A: u32, const B: u32>;
impl<const A: u32, const B: u32> Amm<A, B> {
	fn mine(p: PoolType<AssetId>) -> Answer<()> {
		let k = kind(p);
		if k == A || k == B {
			Ok(())
		} else {
			Err(ExecutorError::NotSupported)
		}
	}
	fn swap(o: Origin, i: AssetId, x: u128, out: AssetId, y: u128) -> Answer<()> {
		let who = match o.0 {
			frame_system::RawOrigin::Signed(w) => w,
			_ => return no(),
		};
		if Shut::get(i) {
			return no();
		}
		let x = x.saturating_sub(Short::get(i));
		let y = y.saturating_add(Extra::get(out)).saturating_sub(Less::get(out));
		Ledger::transfer(i, &who, &POOLS, x).map_err(|_| refused())?;
		Ledger::transfer(out, &POOLS, &who, y).map_err(|_| refused())
	}
}
impl<const A: u32, const B: u32> TradeExecution<Origin, AccountId, AssetId, Balance> for Amm<A, B> {
	type Error = DispatchError;
	fn calculate_sell(p: PoolType<AssetId>, i: AssetId, o: AssetId, x: u128) -> Answer<u128> {
		Self::mine(p)?;
		match quote_sell(kind(p), i, o, x) {
			Some(y) => Ok(y),
			None => no(),
		}
	}
	fn calculate_buy(p: PoolType<AssetId>, i: AssetId, o: AssetId, y: u128) -> Answer<u128> {
		Self::mine(p)?;
		match quote_buy(kind(p), i, o, y) {
			Some(x) => Ok(x),
			None => no(),
		}
	}
	fn execute_sell(who: Origin, p: PoolType<AssetId>, i: AssetId, o: AssetId, x: u128, min: u128) -> Answer<()> {
		let y = Self::calculate_sell(p, i, o, x)?;
		if y < min {
			return no();
		}
		Self::swap(who, i, x, o, y)
	}
	fn execute_buy(who: Origin, p: PoolType<AssetId>, i: AssetId, o: AssetId, y: u128, max: u128) -> Answer<()> {
		let x = Self::calculate_buy(p, i, o, y)?;
		if x > max {
			return no();
		}
		Self::swap(who, i, x, o, y)
	}
	fn get_liquidity_depth(p: PoolType<AssetId>, _: AssetId, _: AssetId) -> Answer<u128> {
		Self::mine(p)?;
		Ok(Depth::get())
	}
	fn calculate_spot_price_with_fee(p: PoolType<AssetId>, i: AssetId, o: AssetId) -> Answer<FixedU128> {
		Self::mine(p)?;
		match quote_price(kind(p), i, o) {
			Some(x) => Ok(FixedU128::from_inner(x)),
			None => no(),
		}
	}
}
pub struct Refunds;
impl RefundEdCalculator<Balance> for Refunds {
	fn calculate() -> Balance {
		Refund::get()
	}
}
hrt::gets! {
	GNative: AssetId = A;
	GPool: PoolType<AssetId> = PoolType::Omnipool;
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type Balance = Balance;
	type NativeAssetId = GNative;
	type Currency = Ledger;
	type InspectRegistry = Registry;
	type AMM = (Amm<0, 9>, Amm<2, 3>);
	type EdToRefundCalculator = Refunds;
	type DefaultRoutePoolType = GPool;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type WeightInfo = ();
}

const A: AssetId = 10;
const B: AssetId = 11;
const C: AssetId = 12;
const WHO: AccountId = 7;
const SP: PoolType<AssetId> = PoolType::Stableswap(20);
const OP: PoolType<AssetId> = PoolType::Omnipool;
const XP: PoolType<AssetId> = PoolType::XYK;

struct World {
	mine: [u128; 3],
	pools: [u128; 3],
}
fn world() -> World {
	let w = World { mine: [any("user_a"), any("user_b"), any("user_c")], pools: [any("pool_a"), any("pool_b"), any("pool_c")] };
	let mut i = 0;
	while i < 3 {
		assume(int(w.mine[i]) + int(w.pools[i]) <= max128());
		Free::insert(WHO, A + i as u32, w.mine[i]);
		Free::insert(POOLS, A + i as u32, w.pools[i]);
		Issuance::insert(A + i as u32, w.mine[i] + w.pools[i]);
		i += 1;
	}
	w
}
fn deposits() {
	Deposits::insert(A, any::<u128>("ed_a"));
	Deposits::insert(B, any::<u128>("ed_b"));
	Deposits::insert(C, any::<u128>("ed_c"));
}
fn hop(p: PoolType<AssetId>, i: AssetId, o: AssetId) -> Trade<AssetId> {
	Trade { pool: p, asset_in: i, asset_out: o }
}
fn gain(w: &World, a: AssetId) -> Int {
	int(Free::get(WHO, a)) - int(w.mine[(a - A) as usize])
}
fn unchanged(w: &World) {
	let mut i = 0;
	while i < 3 {
		check(Free::get(WHO, A + i as u32) == w.mine[i] && Free::get(POOLS, A + i as u32) == w.pools[i], "a refused call moves nothing");
		check(Issuance::get(A + i as u32) == w.mine[i] + w.pools[i], "nothing is minted");
		i += 1;
	}
}
/// The quote of a route of one or two hops.
fn sell_quote(r: &[Trade<AssetId>], x: u128) -> Option<u128> {
	let y = quote_sell(kind(r[0].pool), r[0].asset_in, r[0].asset_out, x)?;
	if r.len() == 1 {
		return Some(y);
	}
	quote_sell(kind(r[1].pool), r[1].asset_in, r[1].asset_out, y)
}
fn buy_quote(r: &[Trade<AssetId>], y: u128) -> Option<u128> {
	if r.len() == 1 {
		return quote_buy(kind(r[0].pool), r[0].asset_in, r[0].asset_out, y);
	}
	let m = quote_buy(kind(r[1].pool), r[1].asset_in, r[1].asset_out, y)?;
	quote_buy(kind(r[0].pool), r[0].asset_in, r[0].asset_out, m)
}
/// Sells along `r`, given to the call as `given`; all pools pay their quotes.
fn sells(r: &[Trade<AssetId>], given: Vec<Trade<AssetId>>) {
	let w = world();
	deposits();
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	let (i, o) = (r[0].asset_in, r[r.len() - 1].asset_out);
	let ok = dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), i, o, x, min, given)).is_ok();
	let q = sell_quote(r, x);
	if ok {
		check(q.is_some(), "the route is quoted");
		let y = q.unwrap();
		check(gain(&w, i) == int(0u128) - int(x), "the seller pays exactly the amount");
		check(gain(&w, o) == int(y), "the seller receives exactly the quote of the route");
		check(y >= min, "the seller's limit holds");
		if r.len() == 2 {
			check(gain(&w, r[0].asset_out) == int(0u128), "assets on the way are passed on entirely");
		}
	} else {
		unchanged(&w);
		match q {
			Some(y) => {
				let mid = if r.len() == 2 { quote_sell(kind(r[0].pool), r[0].asset_in, r[0].asset_out, x).unwrap() } else { 0 };
				let m = (r[0].asset_out - A) as usize;
				check(y < min || x > w.mine[(i - A) as usize] || y > w.pools[(o - A) as usize] || mid > w.pools[m], "a route within limits and means is executed");
			}
			None => {}
		}
	}
}
fn buys(r: &[Trade<AssetId>], given: Vec<Trade<AssetId>>) {
	let w = world();
	deposits();
	let (y, max): (u128, u128) = (any("amount"), any("max_sold"));
	let (i, o) = (r[0].asset_in, r[r.len() - 1].asset_out);
	let ok = dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), i, o, y, max, given)).is_ok();
	let q = buy_quote(r, y);
	if ok {
		check(q.is_some(), "the route is quoted");
		let x = q.unwrap();
		check(gain(&w, i) == int(0u128) - int(x), "the buyer pays exactly the quote of the route");
		check(gain(&w, o) == int(y), "the buyer receives exactly the amount");
		check(x <= max, "the buyer's limit holds");
		if r.len() == 2 {
			check(gain(&w, r[0].asset_out) == int(0u128), "assets on the way are passed on entirely");
		}
	} else {
		unchanged(&w);
		match q {
			Some(x) => {
				let mid = if r.len() == 2 { quote_buy(kind(r[1].pool), r[1].asset_in, r[1].asset_out, y).unwrap() } else { 0 };
				let m = (r[0].asset_out - A) as usize;
				check(x > max || x > w.mine[(i - A) as usize] || y > w.pools[(o - A) as usize] || mid > w.pools[m], "a route within limits and means is executed");
			}
			None => {}
		}
	}
}
fn cheat() {
	Short::insert(A, any::<u128>("short_a"));
	Short::insert(B, any::<u128>("short_b"));
	Extra::insert(B, any::<u128>("extra_b"));
	Less::insert(B, any::<u128>("less_b"));
	Extra::insert(C, any::<u128>("extra_c"));
}
fn same_route(a: &[Trade<AssetId>], b: &[Trade<AssetId>]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut i = 0;
	while i < a.len() {
		if a[i] != b[i] {
			return false;
		}
		i += 1;
	}
	true
}

/// Sets a route of A and C, given in either direction, where one is stored or the default is in use.
fn sets(stored: bool, back: bool, new: Vec<Trade<AssetId>>, rev: Vec<Trade<AssetId>>) {
	let w = world();
	let depth: u128 = any("depth");
	// what is tried can be minted
	assume(int(depth) + int(w.mine[0]) + int(w.pools[0]) <= max128() && int(depth) + int(w.mine[2]) + int(w.pools[2]) <= max128());
	Depth::put(depth);
	Insufficient::insert(A, any::<bool>("insufficient_a"));
	Insufficient::insert(B, any::<bool>("insufficient_b"));
	Insufficient::insert(C, any::<bool>("insufficient_c"));
	let old = if stored { vec![hop(XP, A, C)] } else { vec![hop(OP, A, C)] };
	if stored {
		Routes::<Test>::insert(AssetPair::new(A, C), BoundedVec::try_from(old.clone()).unwrap());
	}
	let done = if back { dispatch(|| Pallet::<Test>::set_route(Origin::signed(WHO), AssetPair::new(C, A), rev.clone())) } else { dispatch(|| Pallet::<Test>::set_route(Origin::signed(WHO), AssetPair::new(A, C), new.clone())) };
	unchanged(&w);
	if done.is_ok() {
		let x = Depth::get() / 100;
		let (o1, n1) = (sell_quote(&old, x), sell_quote(&new, x));
		let (o2, n2) = (sell_quote(&[hop(old[0].pool, C, A)], x), sell_quote(&rev, x));
		check(!Insufficient::get(A) && (new.len() == 1 || !Insufficient::get(B)) && !Insufficient::get(C), "routes are of sufficient assets");
		check(same_route(&Routes::<Test>::get(AssetPair::new(A, C)).unwrap(), &new), "the route is kept in the order of the pair");
		check(Routes::<Test>::get(AssetPair::new(C, A)).is_none(), "a pair has one route");
		check(same_route(&<Pallet<Test> as RouteProvider<AssetId>>::get_route(AssetPair::new(A, C)), &new), "the route is used one way");
		check(same_route(&<Pallet<Test> as RouteProvider<AssetId>>::get_route(AssetPair::new(C, A)), &rev), "the route is used the other way reversed");
		check(n1.is_some() || n2.is_some(), "a route is tried before it is set");
		if let (Some(a), Some(b)) = (o1, o2) {
			// the present route works both ways
			if a <= w.pools[2] && b <= w.pools[0] {
				check(n1.is_some() && n2.is_some() && n1.unwrap() > a && n2.unwrap() > b, "a working route is replaced only by one that is better both ways");
			}
		}
	} else {
		match Routes::<Test>::get(AssetPair::new(A, C)) {
			Some(r) => check(stored && same_route(&r, &old), "a refused call leaves the route alone"),
			None => check(!stored, "a refused call leaves the route alone"),
		}
		check(Routes::<Test>::get(AssetPair::new(C, A)).is_none(), "a refused call sets no route");
	}
}

harness! {
	fn h_p10_sell_one() {
		sells(&[hop(XP, A, C)], vec![hop(XP, A, C)]);
	}
	fn h_p10_sell_two() {
		sells(&[hop(OP, A, B), hop(SP, B, C)], vec![hop(OP, A, B), hop(SP, B, C)]);
	}
	fn h_p10_sell_default() {
		sells(&[hop(OP, C, A)], vec![]);
	}
	fn h_p10_sell_stored() {
		Routes::<Test>::insert(AssetPair::new(A, C), BoundedVec::try_from(vec![hop(XP, A, B), hop(OP, B, C)]).unwrap());
		sells(&[hop(OP, C, B), hop(XP, B, A)], vec![]);
	}
	fn h_p10_sell_own() {
		Routes::<Test>::insert(AssetPair::new(A, C), BoundedVec::try_from(vec![hop(XP, A, B), hop(OP, B, C)]).unwrap());
		sells(&[hop(SP, A, C)], vec![hop(SP, A, C)]);
	}
	fn h_p10_buy_one() {
		buys(&[hop(SP, A, C)], vec![hop(SP, A, C)]);
	}
	fn h_p10_buy_two() {
		buys(&[hop(XP, A, B), hop(OP, B, C)], vec![hop(XP, A, B), hop(OP, B, C)]);
	}
	fn h_p10_buy_default() {
		buys(&[hop(OP, C, A)], vec![]);
	}
	fn h_p10_buy_stored() {
		Routes::<Test>::insert(AssetPair::new(A, C), BoundedVec::try_from(vec![hop(XP, A, B), hop(OP, B, C)]).unwrap());
		buys(&[hop(XP, A, B), hop(OP, B, C)], vec![]);
	}
	/// Pools that take too little or pay too much are not traded with.
	fn h_p10_sell_cheated() {
		let w = world();
		cheat();
		let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
		let r = vec![hop(XP, A, B), hop(OP, B, C)];
		if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), A, C, x, min, r)).is_ok() {
			check(gain(&w, A) == int(0u128) - int(x), "the seller pays exactly the amount");
			let m = quote_sell(0, A, B, x).unwrap();
			let y = quote_sell(3, B, C, m).unwrap();
			check(gain(&w, C) <= int(y), "no more than the quote is received");
			check(y >= min, "the seller's limit holds");
			check(Short::get(B) == 0 || m == 0, "every hop takes its amount");
		} else {
			unchanged(&w);
		}
	}
	fn h_p10_buy_cheated() {
		let w = world();
		cheat();
		let (y, max): (u128, u128) = (any("amount"), any("max_sold"));
		let r = vec![hop(XP, A, B), hop(OP, B, C)];
		if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), A, C, y, max, r)).is_ok() {
			let m = quote_buy(3, B, C, y).unwrap();
			let x = quote_buy(0, A, B, m).unwrap();
			check(gain(&w, A) == int(0u128) - int(x), "the buyer pays exactly the quote");
			check(gain(&w, C) <= int(y), "no more than the amount is received");
			check(x <= max, "the buyer's limit holds");
			check(m.saturating_add(Extra::get(B)).saturating_sub(Less::get(B)) <= m, "no hop pays more than its amount");
		} else {
			unchanged(&w);
		}
	}
	/// Selling all of an asset that does not keep the account may give the native asset's deposit back.
	fn h_p10_refund() {
		let w = world();
		let bad: bool = any("insufficient");
		Insufficient::insert(C, bad);
		Refund::put(any::<u128>("refund"));
		Extra::insert(A, any::<u128>("extra"));
		let x: u128 = any("amount");
		if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), C, A, x, 0, vec![hop(XP, C, A)])).is_ok() {
			let y = quote_sell(0, C, A, x).unwrap();
			check(gain(&w, A) <= int(y) + if bad { int(Refund::get()) } else { int(0u128) }, "no more than the quote and the deposit is received");
		} else {
			unchanged(&w);
		}
	}
	fn h_p10_malformed() {
		let w = world();
		let x: u128 = any("amount");
		let buy: bool = any("buy");
		let k = within("case", 0u8, 5);
		let (i, o) = if k == 0 { (A, A) } else { (A, C) };
		let r = match k {
			0 => vec![hop(XP, A, A)],
			1 => vec![hop(XP, B, C)],
			2 => vec![hop(XP, A, B)],
			3 => vec![hop(XP, A, B), hop(OP, A, C)],
			4 => vec![hop(PoolType::LBP, A, C)],
			_ => vec![hop(XP, A, B), hop(XP, B, A), hop(XP, A, B), hop(XP, B, A), hop(XP, A, B), hop(XP, B, C)],
		};
		let done = if buy { dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), i, o, x, u128::MAX, r)) } else { dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), i, o, x, 0, r)) };
		check(done.is_err(), "routes are connected, supported and of at most five trades");
		unchanged(&w);
	}
	fn h_p10_set_first() {
		sets(false, false, vec![hop(SP, A, C)], vec![hop(SP, C, A)]);
	}
	fn h_p10_set_first_back() {
		sets(false, true, vec![hop(SP, A, B), hop(XP, B, C)], vec![hop(XP, C, B), hop(SP, B, A)]);
	}
	fn h_p10_set_better() {
		sets(true, false, vec![hop(SP, A, B), hop(XP, B, C)], vec![hop(XP, C, B), hop(SP, B, A)]);
	}
	fn h_p10_set_better_back() {
		sets(true, true, vec![hop(SP, A, C)], vec![hop(SP, C, A)]);
	}
	fn h_p10_force_route() {
		let root: bool = any("root");
		let back: bool = any("reversed");
		let long: bool = any("long");
		let o = || if root { Origin::root() } else { Origin::signed(WHO) };
		let r = vec![hop(XP, C, B), hop(SP, B, A)];
		let done = if long {
			dispatch(|| Pallet::<Test>::force_insert_route(o(), AssetPair::new(A, C), vec![hop(XP, A, C), hop(XP, A, C), hop(XP, A, C), hop(XP, A, C), hop(XP, A, C), hop(XP, A, C)]))
		} else if back {
			dispatch(|| Pallet::<Test>::force_insert_route(o(), AssetPair::new(C, A), r.clone()))
		} else {
			dispatch(|| Pallet::<Test>::force_insert_route(o(), AssetPair::new(A, C), vec![hop(SP, A, B), hop(XP, B, C)]))
		};
		check(done.is_ok() == (root && !long), "the authority alone sets routes, of at most five trades, without trial");
		match Routes::<Test>::get(AssetPair::new(A, C)) {
			Some(x) => check(done.is_ok() && same_route(&x, &[hop(SP, A, B), hop(XP, B, C)]), "the route is kept in the order of the pair"),
			None => check(done.is_err(), "the route is set"),
		}
		check(Routes::<Test>::get(AssetPair::new(C, A)).is_none(), "a pair has one route");
	}
	fn h_p10_price() {
		let i = if any("unlisted") { 13 } else { A };
		let one = <Pallet<Test> as RouteSpotPriceProvider<AssetId>>::spot_price_with_fee(&[hop(XP, i, C)]);
		let p = quote_price(0, i, C);
		match one {
			Some(v) => check(p == Some(v.into_inner()), "the price of a trade is that of its pool"),
			None => check(p.is_none(), "a price that is known is given"),
		}
		check(<Pallet<Test> as RouteSpotPriceProvider<AssetId>>::spot_price_with_fee(&[]).is_none(), "no route, no price");
	}
	fn h_p10_price_two() {
		let (p, q) = (quote_price(0, A, B), quote_price(3, B, C));
		if let (Some(p), Some(q)) = (p, q) {
			assume(int(p) * int(q) <= max128());
			let r = <Pallet<Test> as RouteSpotPriceProvider<AssetId>>::spot_price_with_fee(&[hop(XP, A, B), hop(OP, B, C)]);
			match r {
				Some(v) => {
					let e = int(v.into_inner()) * int(1_000_000_000_000_000_000u128) - int(p) * int(q);
					check(e.clone() < int(1_000_000_000_000_000_000u128) && e > int(0u128) - int(1_000_000_000_000_000_000u128), "the price of a route is the product of the prices of its trades");
				}
				None => check(false, "a price that is known is given"),
			}
		}
	}
}
