use frame_support::pallet_prelude::*;
use frame_support::weights::Weight;
use hrt::*;
use hydra_dx_math::ema::EmaPrice;
use hydra_dx_math::omnipool;
use hydra_dx_math::omnipool::types::{BalanceUpdate, I129};
use orml_traits::{GetByKey, MultiCurrency};
use pallet_omnipool::traits::{AssetInfo, ExternalPriceProvider, OmnipoolHooks, ShouldAllow};
use pallet_omnipool::types::{AssetReserveState, AssetState, Position, SimpleImbalance, Tradability};
use pallet_omnipool::{Assets, Config, HubAssetImbalance, HubAssetTradability, NextPositionId, Pallet, Positions};
use sp_runtime::{FixedU128, Permill};
use symx::*;

hrt::runtime!(pallet_omnipool);
hrt::cells! {
	CMin MinTrade: u128 = 102;
	CLiq MinLiq: u128 = 103;
	CIn InRatio: u128 = 104;
	COut OutRatio: u128 = 105;
	CFee MinFee: u32 = 106;
	CBar Barrier: bool = 107;
	CPn PriceN: u128 = 108;
	CPd PriceD: u128 = 109;
	CPok PriceOk: bool = 110;
	CTk Taken: u128 = 111;
	CRep Reported: u128 = 112;
	CSaw Saw: u32 = 113;
	CAsk Offered: u128 = 114;
}
/// Fees of an asset (parts per million), and what the hooks were told of it.
pub struct PFees;
impl frame_support::storage::StorageInstance for PFees {
	fn id() -> u64 {
		150
	}
}
pub type Fees = StorageMap<PFees, Identity, AssetId, (u32, u32), ValueQuery>;
pub struct PTold;
impl frame_support::storage::StorageInstance for PTold {
	fn id() -> u64 {
		151
	}
}
/// reserve and hub reserve, before and after
pub type Told = StorageMap<PTold, Identity, AssetId, (u128, u128, u128, u128), OptionQuery>;
hrt::gets! {
	GMin: u128 = MinTrade::get();
	GLiq: u128 = MinLiq::get();
	GIn: u128 = InRatio::get();
	GOut: u128 = OutRatio::get();
	GFee: Permill = Permill::from_parts(MinFee::get());
	GHdx: AssetId = HDX;
	GHub: AssetId = HUB;
	GCol: u128 = 1u128;
}
pub struct FeeOf;
impl GetByKey<AssetId, (Permill, Permill)> for FeeOf {
	fn get(k: &AssetId) -> (Permill, Permill) {
		let (a, p) = Fees::get(*k);
		(Permill::from_parts(a), Permill::from_parts(p))
	}
}
pub struct Watch;
fn tell(i: AssetInfo<AssetId, Balance>) {
	let (r, h) = match Told::get(i.asset_id) {
		Some((r, h, _, _)) => (r, h),
		None => (i.before.reserve, i.before.hub_reserve),
	};
	Told::insert(i.asset_id, (r, h, i.after.reserve, i.after.hub_reserve));
}
impl OmnipoolHooks<Origin, AccountId, AssetId, Balance> for Watch {
	type Error = DispatchError;
	fn on_liquidity_changed(_: Origin, a: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		tell(a);
		Ok(Weight::zero())
	}
	fn on_trade(_: Origin, i: AssetInfo<AssetId, Balance>, o: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		tell(i);
		tell(o);
		Ok(Weight::zero())
	}
	fn on_hub_asset_trade(_: Origin, a: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		tell(a);
		Ok(Weight::zero())
	}
	fn on_liquidity_changed_weight() -> Weight {
		Weight::zero()
	}
	fn on_trade_weight() -> Weight {
		Weight::zero()
	}
	/// Takes any amount from the pool and says it took any other.
	fn on_trade_fee(from: AccountId, _: AccountId, asset: AssetId, amount: Balance) -> Result<Balance, DispatchError> {
		Offered::put(amount);
		Ledger::transfer(asset, &from, &COLLECTOR, Taken::get())?;
		Ok(Reported::get())
	}
}
pub struct Barriers;
impl ShouldAllow<AccountId, AssetId, EmaPrice> for Barriers {
	fn ensure_price(_: &AccountId, a: AssetId, b: AssetId, p: EmaPrice) -> Result<(), ()> {
		let s = Pallet::<Test>::load_asset_state(b).map_err(|_| ())?;
		if a == HUB && p.n == s.hub_reserve && p.d == s.reserve {
			Saw::put(Saw::get() + 1);
		}
		if Barrier::get() {
			Ok(())
		} else {
			Err(())
		}
	}
}
pub struct Oracle;
impl ExternalPriceProvider<AssetId, EmaPrice> for Oracle {
	type Error = DispatchError;
	fn get_price(_: AssetId, _: AssetId) -> Result<EmaPrice, DispatchError> {
		if PriceOk::get() {
			Ok(EmaPrice { n: PriceN::get(), d: PriceD::get() })
		} else {
			Err(DispatchError::Other("no price"))
		}
	}
	fn get_price_weight() -> Weight {
		Weight::zero()
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type Currency = Ledger;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetRegistry = Registry;
	type HdxAssetId = GHdx;
	type HubAssetId = GHub;
	type Fee = FeeOf;
	type MinWithdrawalFee = GFee;
	type MinimumTradingLimit = GMin;
	type MinimumPoolLiquidity = GLiq;
	type MaxInRatio = GIn;
	type MaxOutRatio = GOut;
	type PositionItemId = u128;
	type CollectionId = u128;
	type NFTCollectionId = GCol;
	type NFTHandler = Items;
	type WeightInfo = ();
	type OmnipoolHooks = Watch;
	type PriceBarrier = Barriers;
	type ExternalPriceOracle = Oracle;
}

const HDX: AssetId = 0;
const HUB: AssetId = 1;
const A: AssetId = 2;
const B: AssetId = 3;
const WHO: AccountId = 7;
const DEST: AccountId = 8;
const COLLECTOR: AccountId = 9;

#[derive(Clone, Copy, PartialEq)]
struct Side {
	reserve: u128,
	hub: u128,
	shares: u128,
	own: u128,
	cap: u128,
	mine: u128,
	flags: u8,
}
struct World {
	pool: AccountId,
	n: Side,
	a: Side,
	b: Side,
	hub: u128,
	hubs: u128,
	mine: u128,
	imb: u128,
	flags: u8,
}
fn flags(n: &'static str) -> u8 {
	let v = any::<u8>(n);
	assume(v < 16);
	v
}
fn put(pool: AccountId, id: AssetId, s: &Side) {
	assume(s.own <= s.shares);
	assume(int(s.reserve) + int(s.mine) <= max128());
	let r = AssetReserveState { reserve: s.reserve, hub_reserve: s.hub, shares: s.shares, protocol_shares: s.own, cap: s.cap, tradable: Tradability::from_bits_truncate(s.flags) };
	Assets::<Test>::insert(id, AssetState::from(r));
	Free::insert(pool, id, s.reserve);
	Free::insert(WHO, id, s.mine);
}
/// The native asset and two more in the pool; the pool's balance of the hub asset is what they and the others hold.
fn world() -> World {
	let pool = Pallet::<Test>::protocol_account();
	let n = Side { reserve: any("native_reserve"), hub: any("native_hub"), shares: any("native_shares"), own: any("native_protocol"), cap: any("native_cap"), mine: any("user_native"), flags: flags("native_flags") };
	let a = Side { reserve: any("a_reserve"), hub: any("a_hub"), shares: any("a_shares"), own: any("a_protocol"), cap: any("a_cap"), mine: any("user_a"), flags: flags("a_flags") };
	let b = Side { reserve: any("b_reserve"), hub: any("b_hub"), shares: any("b_shares"), own: any("b_protocol"), cap: any("b_cap"), mine: any("user_b"), flags: flags("b_flags") };
	put(pool, HDX, &n);
	put(pool, A, &a);
	put(pool, B, &b);
	let w = World { pool, n, a, b, hub: any("hub_reserve"), hubs: any("hub_issuance"), mine: any("user_hub"), imb: any("imbalance"), flags: flags("hub_flags") };
	assume(int(w.n.hub) + int(w.a.hub) + int(w.b.hub) <= int(w.hub));
	assume(int(w.hub) + int(w.mine) <= int(w.hubs));
	Free::insert(pool, HUB, w.hub);
	Free::insert(WHO, HUB, w.mine);
	Issuance::insert(HUB, w.hubs);
	HubAssetImbalance::<Test>::put(SimpleImbalance { value: w.imb, negative: true });
	HubAssetTradability::<Test>::put(Tradability::from_bits_truncate(w.flags));
	Fees::insert(HDX, (within("native_fee", 0u32, 1000000), within("native_protocol_fee", 0u32, 1000000)));
	Fees::insert(A, (within("a_fee", 0u32, 1000000), within("a_protocol_fee", 0u32, 1000000)));
	Fees::insert(B, (within("b_fee", 0u32, 1000000), within("b_protocol_fee", 0u32, 1000000)));
	MinTrade::put(any::<u128>("min_trade"));
	MinLiq::put(any::<u128>("min_liquidity"));
	InRatio::put(any::<u128>("in_ratio"));
	OutRatio::put(any::<u128>("out_ratio"));
	Taken::put(any::<u128>("taken"));
	Reported::put(any::<u128>("reported"));
	w
}
fn side(id: AssetId) -> Side {
	let pool = Pallet::<Test>::protocol_account();
	match Pallet::<Test>::load_asset_state(id) {
		Ok(s) => Side { reserve: s.reserve, hub: s.hub_reserve, shares: s.shares, own: s.protocol_shares, cap: s.cap, mine: Free::get(WHO, id), flags: s.tradable.bits() },
		Err(_) => Side { reserve: Free::get(pool, id), hub: 0, shares: 0, own: 0, cap: 0, mine: Free::get(WHO, id), flags: 0 },
	}
}
/// What every call keeps.
fn ledgers(w: &World) {
	let (n, a, b) = (side(HDX), side(A), side(B));
	let hub = Free::get(w.pool, HUB);
	check(int(hub) - int(n.hub) - int(a.hub) - int(b.hub) == int(w.hub) - int(w.n.hub) - int(w.a.hub) - int(w.b.hub), "the pool's hub balance is the sum of the hub reserves");
	let before = int(w.hubs) - int(w.hub) - int(w.mine);
	check(int(Issuance::get(HUB)) - int(hub) - int(Free::get(WHO, HUB)) - int(Free::get(DEST, HUB)) == before, "hub assets are minted to and burnt from the pool only");
	check(HubAssetImbalance::<Test>::get().negative, "the imbalance is never positive");
}
fn nothing_happened(w: &World) {
	check(side(HDX) == w.n && side(A) == w.a && side(B) == w.b, "a refused call leaves the assets alone");
	check(Free::get(w.pool, HUB) == w.hub && Free::get(WHO, HUB) == w.mine && Issuance::get(HUB) == w.hubs, "a refused call leaves the hub asset alone");
	let i = HubAssetImbalance::<Test>::get();
	check(i.value == w.imb && i.negative, "a refused call leaves the imbalance alone");
	check(Told::get(A).is_none() && Told::get(B).is_none(), "a refused call tells the hooks nothing");
}
fn same_shares(s: &Side, t: &Side) -> bool {
	s.shares == t.shares && s.own == t.own && s.cap == t.cap && s.flags == t.flags
}
fn told(id: AssetId, before: &Side, after: &Side, fee: u128) {
	match Told::get(id) {
		Some((r, h, r2, h2)) => {
			check(r == before.reserve && h == before.hub, "the hooks learn the reserves before");
			check(int(r2) - int(fee) == int(after.reserve) && h2 == after.hub, "the hooks learn the reserves after");
		}
		None => check(false, "the hooks learn of every change"),
	}
}
/// A trade of `x` of one asset for `y` of another, neither the hub asset.
fn traded(w: &World, i: AssetId, bi: &Side, o: AssetId, bo: &Side, other: AssetId, bn: &Side) {
	let (ai, ao, an) = (side(i), side(o), side(other));
	let (x, y) = (int(ai.reserve) - int(bi.reserve), int(ao.mine) - int(bo.mine));
	let fee = Free::get(COLLECTOR, o);
	check(int(ai.mine) == int(bi.mine) - x.clone(), "the pool receives what the trader pays");
	check(int(ao.reserve) == int(bo.reserve) - y.clone() - int(fee), "the trader and the fee handler receive what the pool pays");
	check(fee <= Offered::get(), "no more than the offered fee is taken");
	check(y >= int(0u128), "the trader receives a token");
	check(x.clone() * int(InRatio::get()) <= int(bi.reserve), "no more than the allowed part comes in");
	check(y.clone() * int(OutRatio::get()) <= int(bo.reserve), "no more than the allowed part goes out");
	check(bi.flags & 1 != 0 && bo.flags & 2 != 0, "only sellable assets are sold and only buyable ones are bought");
	check(same_shares(bi, &ai) && same_shares(bo, &ao) && same_shares(bn, &an), "trades do not touch shares");
	check(an.reserve == bn.reserve && an.mine == bn.mine, "trades do not touch other assets");
	check(Free::get(WHO, HUB) == w.mine, "trades do not touch the trader's hub asset");
	check(Free::get(w.pool, HUB) <= w.hub, "trades burn hub assets or none");
	check(int(w.imb) - int(HubAssetImbalance::<Test>::get().value) == int(w.hubs) - int(Issuance::get(HUB)), "what is burnt is taken off the imbalance");
	ledgers(w);
}

/// The checks common to `sell` of `x`.
fn sold(w: &World, i: AssetId, bi: &Side, o: AssetId, bo: &Side, other: AssetId, bn: &Side) {
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), i, o, x, min)).is_ok() {
		traded(w, i, bi, o, bo, other, bn);
		let (ai, ao) = (side(i), side(o));
		check(int(ai.mine) == int(bi.mine) - int(x), "the seller pays the amount");
		check(int(ao.mine) - int(bo.mine) >= int(min), "the seller's limit holds");
		check(ao.mine > bo.mine, "the seller receives something");
		check(x >= MinTrade::get(), "no trade below the minimum");
		told(i, bi, &ai, 0);
		told(o, bo, &ao, Free::get(COLLECTOR, o));
	} else {
		nothing_happened(w);
	}
}
fn bought(w: &World, i: AssetId, bi: &Side, o: AssetId, bo: &Side, other: AssetId, bn: &Side) {
	let (x, max): (u128, u128) = (any("amount"), any("max_sold"));
	if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), o, i, x, max)).is_ok() {
		traded(w, i, bi, o, bo, other, bn);
		let (ai, ao) = (side(i), side(o));
		check(int(ao.mine) == int(bo.mine) + int(x), "the buyer receives the amount");
		check(int(bi.mine) - int(ai.mine) <= int(max), "the buyer's limit holds");
		check(ai.mine < bi.mine || x == 0, "the buyer pays something");
		check(x >= MinTrade::get(), "no trade below the minimum");
		told(i, bi, &ai, 0);
		told(o, bo, &ao, Free::get(COLLECTOR, o));
	} else {
		nothing_happened(w);
	}
}
/// A trade of hub assets for another.
fn hub_traded(w: &World, o: AssetId, bo: &Side, delta: BalanceUpdate<u128>) {
	let ao = side(o);
	let (x, y) = (int(w.mine) - int(Free::get(WHO, HUB)), int(ao.mine) - int(bo.mine));
	let fee = Free::get(COLLECTOR, o);
	check(int(Free::get(w.pool, HUB)) == int(w.hub) + x.clone(), "the pool receives what the trader pays");
	check(int(ao.hub) == int(bo.hub) + x.clone(), "hub assets paid are those of the asset bought");
	check(int(ao.reserve) == int(bo.reserve) - y.clone() - int(fee), "the trader and the fee handler receive what the pool pays");
	check(fee <= Offered::get(), "no more than the offered fee is taken");
	check(x.clone() * int(InRatio::get()) <= int(bo.hub), "no more than the allowed part comes in");
	check(y.clone() * int(OutRatio::get()) <= int(bo.reserve), "no more than the allowed part goes out");
	check(w.flags & 1 != 0 && bo.flags & 2 != 0, "only sellable assets are sold and only buyable ones are bought");
	check(same_shares(bo, &ao), "trades do not touch shares");
	if o == A {
		check(side(HDX) == w.n && side(B) == w.b, "trades do not touch other assets");
	} else {
		check(side(A) == w.a && side(B) == w.b, "trades do not touch other assets");
	}
	check(Issuance::get(HUB) == w.hubs, "hub trades do not mint or burn");
	ledgers(w);
	told(o, bo, &ao, fee);
	imbalance_grows(w, delta);
}
/// Hub assets sold to the pool add to the imbalance what the curve says.
fn imbalance_grows(w: &World, delta: BalanceUpdate<u128>) {
	match delta {
		BalanceUpdate::Decrease(d) => check(int(HubAssetImbalance::<Test>::get().value) == int(w.imb) + int(d), "the imbalance grows by that of the curve"),
		BalanceUpdate::Increase(_) => check(false, "hub assets sold add to the imbalance"),
	}
}
fn math(s: &Side) -> omnipool::types::AssetReserveState<u128> {
	omnipool::types::AssetReserveState { reserve: s.reserve, hub_reserve: s.hub, shares: s.shares, protocol_shares: s.own }
}
fn hub_sold(w: &World, o: AssetId, bo: &Side) {
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), HUB, o, x, min)).is_ok() {
		let c = omnipool::calculate_sell_hub_state_changes(&math(bo), x, FeeOf::get(&o).0, I129 { value: w.imb, negative: true }, w.hub);
		hub_traded(w, o, bo, c.unwrap().delta_imbalance);
		check(int(Free::get(WHO, HUB)) == int(w.mine) - int(x), "the seller pays the amount");
		check(int(side(o).mine) - int(bo.mine) >= int(min), "the seller's limit holds");
		check(x >= MinTrade::get(), "no trade below the minimum");
	} else {
		nothing_happened(w);
	}
}
fn hub_spent(w: &World, o: AssetId, bo: &Side) {
	let (x, max): (u128, u128) = (any("amount"), any("max_sold"));
	if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), o, HUB, x, max)).is_ok() {
		let c = omnipool::calculate_buy_for_hub_asset_state_changes(&math(bo), x, FeeOf::get(&o).0, I129 { value: w.imb, negative: true }, w.hub);
		hub_traded(w, o, bo, c.unwrap().delta_imbalance);
		check(int(side(o).mine) == int(bo.mine) + int(x), "the buyer receives the amount");
		check(int(w.mine) - int(Free::get(WHO, HUB)) <= int(max), "the buyer's limit holds");
		check(x >= MinTrade::get(), "no trade below the minimum");
	} else {
		nothing_happened(w);
	}
}

const ITEM: u128 = 5;
const OTHER: AccountId = 10;
struct Lp {
	asset: AssetId,
	amount: u128,
	shares: u128,
	price: (u128, u128),
	owner: AccountId,
	next: u128,
}
/// A position in A, of the account or another.
fn position(w: &World) -> Lp {
	let l = Lp { asset: A, amount: any("pos_amount"), shares: any("pos_shares"), price: (any("pos_price_n"), any("pos_price_d")), owner: if any::<bool>("mine") { WHO } else { OTHER }, next: any("next_position") };
	assume(int(l.shares) + int(w.a.own) <= int(w.a.shares));
	assume(l.next > ITEM);
	Positions::<Test>::insert(ITEM, Position { asset_id: A, amount: l.amount, shares: l.shares, price: l.price });
	Owners::insert(1, ITEM, l.owner);
	NextPositionId::<Test>::put(l.next);
	Barrier::put(any::<bool>("barrier_passes"));
	PriceOk::put(any::<bool>("oracle_answers"));
	PriceN::put(any::<u128>("oracle_n"));
	PriceD::put(any::<u128>("oracle_d"));
	assume(PriceD::get() > 0 && int(PriceN::get()) * int(1_000_000_000_000_000_000u128) <= max128() * int(PriceD::get()));
	MinFee::put(within("min_fee", 0u32, 1000000));
	l
}
fn same_position(l: &Lp) -> bool {
	match Positions::<Test>::get(ITEM) {
		Some(p) => p.asset_id == l.asset && p.amount == l.amount && p.shares == l.shares && p.price == l.price && Owners::get(1, ITEM) == Some(l.owner),
		None => false,
	}
}
/// Shares of an asset are those of positions and of the protocol.
fn shares_add_up(w: &World, l: &Lp, minted: u128) {
	let a = side(A);
	let held = match Positions::<Test>::get(ITEM) {
		Some(p) => p.shares,
		None => 0,
	};
	check(int(a.shares) - int(a.own) - int(held) - int(minted) == int(w.a.shares) - int(w.a.own) - int(l.shares), "shares are those of positions and the protocol");
}
fn no_liquidity_change(w: &World, l: &Lp) {
	nothing_happened(w);
	check(same_position(l), "a refused call leaves positions alone");
	check(Positions::<Test>::get(l.next).is_none() && NextPositionId::<Test>::get() == l.next, "a refused call creates no position");
}
/// The imbalance keeps its part of the hub assets when liquidity comes and goes.
fn imbalance_follows(w: &World, hub: u128, up: u32) {
	let d = omnipool::calculate_delta_imbalance(hub, I129 { value: w.imb, negative: true }, w.hub).unwrap();
	let now = int(HubAssetImbalance::<Test>::get().value);
	check(if up == 1 { now == int(w.imb) + int(d) } else { now == int(w.imb) - int(d) }, "the imbalance keeps its part of the hub assets");
}
fn others_untouched(w: &World) {
	check(side(HDX) == w.n && side(B) == w.b, "other assets are not touched");
}

harness! {
	fn h_p12_add_liquidity() {
		let w = world();
		let l = position(&w);
		let (x, min): (u128, u128) = (any("amount"), any("min_shares"));
		let seen = Saw::get();
		if dispatch(|| Pallet::<Test>::add_liquidity_with_limit(Origin::signed(WHO), A, x, min)).is_ok() {
			let a = side(A);
			check(int(a.reserve) == int(w.a.reserve) + int(x) && int(a.mine) == int(w.a.mine) - int(x), "the pool receives exactly what the provider pays");
			check(x >= MinLiq::get(), "no position below the minimum");
			check(w.a.flags & 4 != 0, "liquidity is added where this is allowed");
			check(Barrier::get() && Saw::get() == seen + 1, "the price barrier is asked with the current price");
			check(a.own == w.a.own && a.cap == w.a.cap && a.flags == w.a.flags, "the protocol's shares stay");
			let minted = int(a.shares) - int(w.a.shares);
			check(minted >= int(min), "the provider's limit holds");
			match Positions::<Test>::get(l.next) {
				Some(p) => {
					check(p.asset_id == A && p.amount == x && int(p.shares) == minted, "the position has the amount and the new shares");
					check(p.price == (a.hub, a.reserve), "the position has the price after");
					check(Owners::get(1, l.next) == Some(WHO), "the provider owns the position");
					shares_add_up(&w, &l, p.shares);
				}
				None => check(false, "there is a new position"),
			}
			check(int(NextPositionId::<Test>::get()) == int(l.next) + int(1u128), "positions are numbered");
			check(same_position(&l), "other positions stay");
			check(int(a.hub) * int(1_000_000_000_000_000_000u128) < (int(a.cap) + int(1u128)) * int(Free::get(w.pool, HUB)), "the weight cap holds");
			check(Free::get(WHO, HUB) == w.mine, "the provider's hub asset stays");
			imbalance_follows(&w, a.hub - w.a.hub, 1);
			others_untouched(&w);
			ledgers(&w);
			told(A, &w.a, &a, 0);
		} else {
			no_liquidity_change(&w, &l);
		}
	}
	fn h_p12_remove_liquidity() {
		let w = world();
		let l = position(&w);
		let (x, min): (u128, u128) = (any("amount"), any("min_amount"));
		let seen = Saw::get();
		if dispatch(|| Pallet::<Test>::remove_liquidity_with_limit(Origin::signed(WHO), ITEM, x, min)).is_ok() {
			let a = side(A);
			check(l.owner == WHO, "only its owner removes a position");
			check(x > 0 && x <= l.shares, "no more shares are removed than there are");
			check(w.a.flags & 8 != 0, "liquidity is removed where this is allowed");
			check(w.a.flags == 8 || w.a.flags == 12 || (Barrier::get() && Saw::get() == seen + 1), "the price barrier is asked with the current price unless trading is disabled");
			check(PriceOk::get() && PriceN::get() != 0, "liquidity is removed at a known price");
			let got = int(a.mine) - int(w.a.mine);
			check(int(a.reserve) == int(w.a.reserve) - got.clone(), "the provider receives exactly what the pool pays");
			check(got >= int(min), "the provider's limit holds");
			match Positions::<Test>::get(ITEM) {
				Some(p) => {
					check(x < l.shares, "a position without shares is gone");
					check(int(p.shares) == int(l.shares) - int(x), "the position loses the shares");
					check(p.amount <= l.amount && p.price == l.price && p.asset_id == A && Owners::get(1, ITEM) == Some(WHO), "the rest of the position stays");
				}
				None => check(x == l.shares && Owners::get(1, ITEM).is_none(), "a position with shares stays"),
			}
			shares_add_up(&w, &l, 0);
			check(a.own >= w.a.own && a.cap == w.a.cap && a.flags == w.a.flags, "the protocol's shares do not fall");
			check(Free::get(WHO, HUB) >= w.mine, "hub assets are paid out or burnt");
			check((int(Issuance::get(HUB)) - int(w.hubs)) * int(w.a.reserve) <= int(w.a.hub) + int(2u128) * int(w.a.reserve), "no hub assets are minted but for rounding");
			imbalance_follows(&w, w.a.hub - a.hub, 0);
			others_untouched(&w);
			ledgers(&w);
			told(A, &w.a, &a, 0);
		} else {
			no_liquidity_change(&w, &l);
		}
	}
	fn h_p12_sacrifice() {
		let w = world();
		let l = position(&w);
		if dispatch(|| Pallet::<Test>::sacrifice_position(Origin::signed(WHO), ITEM)).is_ok() {
			let a = side(A);
			check(l.owner == WHO, "only its owner sacrifices a position");
			check(Positions::<Test>::get(ITEM).is_none() && Owners::get(1, ITEM).is_none(), "the position is gone");
			check(int(a.own) == int(w.a.own) + int(l.shares) && a.shares == w.a.shares, "the shares become the protocol's");
			check(a.reserve == w.a.reserve && a.hub == w.a.hub && a.mine == w.a.mine && Free::get(WHO, HUB) == w.mine, "nothing is paid");
			others_untouched(&w);
			ledgers(&w);
		} else {
			no_liquidity_change(&w, &l);
			check(l.owner != WHO, "the owner can always sacrifice a position");
		}
	}
	fn h_p12_withdraw_protocol() {
		let w = world();
		let l = position(&w);
		let x: u128 = any("amount");
		let price: (u128, u128) = (any("price_n"), any("price_d"));
		let root = any::<bool>("root");
		let o = if root { Origin::root() } else { Origin::signed(WHO) };
		if dispatch(|| Pallet::<Test>::withdraw_protocol_liquidity(o, A, x, price, DEST)).is_ok() {
			let a = side(A);
			check(root, "only the authority withdraws the protocol's liquidity");
			check(x <= w.a.own, "no more than the protocol's shares are withdrawn");
			check(int(a.reserve) + int(Free::get(DEST, A)) == int(w.a.reserve) && a.mine == w.a.mine, "the receiver gets what the pool pays");
			check(a.own <= w.a.own, "the protocol's shares do not grow");
			check(same_position(&l), "positions stay");
			shares_add_up(&w, &l, 0);
			others_untouched(&w);
			ledgers(&w);
			told(A, &w.a, &a, 0);
		} else {
			no_liquidity_change(&w, &l);
		}
	}
	fn h_p12_remove_token() {
		let w = world();
		let l = position(&w);
		let root = any::<bool>("root");
		let o = if root { Origin::root() } else { Origin::signed(WHO) };
		if dispatch(|| Pallet::<Test>::remove_token(o, A, DEST)).is_ok() {
			check(root, "only the authority removes assets");
			check(w.a.flags == 0, "only frozen assets are removed");
			check(w.a.shares == w.a.own && l.shares == 0, "no asset with provided liquidity is removed");
			check(!Assets::<Test>::contains_key(A), "the asset is gone");
			check(Free::get(DEST, A) == w.a.reserve && Free::get(w.pool, A) == 0, "the receiver gets the reserve");
			check(int(Free::get(w.pool, HUB)) == int(w.hub) - int(w.a.hub), "its hub assets are burnt");
			others_untouched(&w);
			ledgers(&w);
		} else {
			no_liquidity_change(&w, &l);
		}
	}
	fn h_p12_add_token() {
		let w = world();
		let l = position(&w);
		const C: AssetId = 4;
		let (amount, price, cap): (u128, u128, u32) = (any("c_balance"), any("price"), within("c_cap", 0u32, 1000000));
		let ed: u128 = any("deposit");
		Free::insert(w.pool, C, amount);
		if any::<bool>("has_deposit") {
			Deposits::insert(C, ed);
		}
		let root = any::<bool>("root");
		let o = if root { Origin::root() } else { Origin::signed(WHO) };
		let again = any::<bool>("again");
		let id = if again { A } else { C };
		if dispatch(|| Pallet::<Test>::add_token(o, id, FixedU128::from_inner(price), Permill::from_parts(cap), DEST)).is_ok() {
			check(root, "only the authority adds assets");
			check(!again, "an asset is added once");
			check(price > 0, "an asset has a price");
			let c = side(C);
			check(ed > 0 && (int(amount) >= int(ed) * int(20u128) || amount == u128::MAX), "the pool holds enough of a new asset");
			check(c.reserve == amount && c.shares == amount && c.own == 0, "all of it is provided");
			check(is_floor(int(c.hub), int(price) * int(amount), int(1_000_000_000_000_000_000u128)), "its hub reserve follows from the price");
			check(int(Free::get(w.pool, HUB)) == int(w.hub) + int(c.hub) && int(Issuance::get(HUB)) == int(w.hubs) + int(c.hub), "its hub reserve is minted");
			check(int(c.cap) == int(cap as u128) * int(1_000_000_000_000u128), "its cap is the given one");
			check(c.flags == 15, "it can be traded");
			match Positions::<Test>::get(l.next) {
				Some(p) => check(p.asset_id == C && p.amount == amount && p.shares == amount && p.price == (price, 1_000_000_000_000_000_000u128) && Owners::get(1, l.next) == Some(DEST), "the owner gets the position"),
				None => check(false, "there is a position"),
			}
			check(side(A) == w.a && same_position(&l), "other assets and positions stay");
			others_untouched(&w);
			check(HubAssetImbalance::<Test>::get().negative, "the imbalance is never positive");
		} else {
			no_liquidity_change(&w, &l);
			check(!Assets::<Test>::contains_key(C), "a refused call adds no asset");
		}
	}
	fn h_p12_settings() {
		let w = world();
		let l = position(&w);
		let root = any::<bool>("root");
		let who = if root { Origin::root() } else { Origin::signed(WHO) };
		let hub = any::<bool>("of_hub");
		let id = if hub { HUB } else { A };
		let (f, cap) = (flags("new_flags"), within("new_cap", 0u32, 1000000));
		let of_flags = any::<bool>("set_flags");
		let r = if of_flags { dispatch(|| Pallet::<Test>::set_asset_tradable_state(who, id, Tradability::from_bits_truncate(f))) } else { dispatch(|| Pallet::<Test>::set_asset_weight_cap(who, id, Permill::from_parts(cap))) };
		if r.is_ok() {
			check(root, "only the technical origin changes assets");
			let mut a = w.a;
			if of_flags && hub {
				check(f & 12 == 0, "there is no liquidity of the hub asset");
				check(HubAssetTradability::<Test>::get().bits() == f, "the state is the given one");
			} else if of_flags {
				a.flags = f;
			} else {
				check(!hub, "the hub asset has no cap");
				a.cap = cap as u128 * 1_000_000_000_000;
			}
			check(side(A) == a, "only the given value changes");
			others_untouched(&w);
			ledgers(&w);
		} else {
			no_liquidity_change(&w, &l);
			check(HubAssetTradability::<Test>::get().bits() == w.flags, "a refused call leaves the hub asset's state alone");
		}
	}
	fn h_p12_refund() {
		let w = world();
		let l = position(&w);
		const C: AssetId = 4;
		let (held, x): (u128, u128) = (any("c_balance"), any("amount"));
		Free::insert(w.pool, C, held);
		let root = any::<bool>("root");
		let who = if root { Origin::root() } else { Origin::signed(WHO) };
		let which = any::<u8>("which");
		let id = if which == 0 { C } else if which == 1 { HUB } else { A };
		if dispatch(|| Pallet::<Test>::refund_refused_asset(who, id, x, DEST)).is_ok() {
			check(root, "only the authority refunds assets");
			check(which == 0, "assets in the pool and hub assets are not refunded");
			check(x <= held && Free::get(DEST, C) == x && int(Free::get(w.pool, C)) == int(held) - int(x), "the receiver gets the amount");
			check(side(A) == w.a, "pool assets stay");
			others_untouched(&w);
			ledgers(&w);
		} else {
			no_liquidity_change(&w, &l);
		}
	}
	fn h_p07_sell() {
		let w = world();
		sold(&w, A, &w.a, B, &w.b, HDX, &w.n)
	}
	fn h_p07_sell_native() {
		let w = world();
		sold(&w, HDX, &w.n, B, &w.b, A, &w.a)
	}
	fn h_p07_sell_for_native() {
		let w = world();
		sold(&w, A, &w.a, HDX, &w.n, B, &w.b)
	}
	fn h_p07_buy() {
		let w = world();
		bought(&w, A, &w.a, B, &w.b, HDX, &w.n)
	}
	fn h_p07_buy_with_native() {
		let w = world();
		bought(&w, HDX, &w.n, B, &w.b, A, &w.a)
	}
	fn h_p07_buy_native() {
		let w = world();
		bought(&w, A, &w.a, HDX, &w.n, B, &w.b)
	}
	fn h_p07_sell_hub() {
		let w = world();
		hub_sold(&w, A, &w.a)
	}
	fn h_p07_sell_hub_for_native() {
		let w = world();
		hub_sold(&w, HDX, &w.n)
	}
	fn h_p07_buy_for_hub() {
		let w = world();
		hub_spent(&w, A, &w.a)
	}
	fn h_p07_buy_native_for_hub() {
		let w = world();
		hub_spent(&w, HDX, &w.n)
	}
	fn h_p07_hub_only_sold() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount"), any("limit"));
		let r = if any::<bool>("sell") { dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), A, HUB, x, y)) } else { dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), HUB, A, x, y)) };
		check(r.is_err(), "the pool sells no hub assets");
		let r = if any::<bool>("sell_same") { dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), A, A, x, y)) } else { dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), A, A, x, y)) };
		check(r.is_err(), "no trade of an asset for itself");
		nothing_happened(&w);
	}
}
