use codec::{Decode, Encode};
use frame_support::pallet_prelude::*;
use frame_support::rt::recast;
use frame_support::weights::Weight;
use frame_support::PalletId;
use hrt::*;
use hydra_dx_math::ema::EmaPrice;
use hydra_dx_math::liquidity_mining as math;
use hydradx_traits::liquidity_mining::PriceAdjustment;
use hydradx_traits::oracle::{AggregatedPriceOracle, OraclePeriod, Source};
use orml_traits::GetByKey;
use pallet_ema_oracle::OracleError;
use pallet_liquidity_mining::{ActiveYieldFarm, Deposit, DepositData, DepositSequencer, FarmSequencer, FarmState, GlobalFarm, GlobalFarmData, LoyaltyCurve, YieldFarm, YieldFarmData, YieldFarmEntry};
use pallet_omnipool::traits::{AssetInfo, ExternalPriceProvider, OmnipoolHooks, ShouldAllow};
use pallet_omnipool::types::{AssetState, Position};
use pallet_omnipool::{Assets, Positions};
use sp_arithmetic::{FixedU128, Perquintill};
use sp_runtime::{DispatchError, Permill};
use symx::*;

hrt::runtime!(pallet_liquidity_mining, pallet_omnipool, pallet_omnipool_liquidity_mining);
impl scale_info::TypeInfo for Test {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		unimplemented!()
	}
}
type Pool = AssetId;
const POOL: Pool = 40;
const POOL2: Pool = 41;
include!("../../farms.rs");

hrt::cells! {
	CPn PriceN: u128 = 120;
	CPd PriceD: u128 = 121;
	CNoPrice NoPrice: bool = 122;
	CAsked Asked: (u32, u32) = 123;
}
const HUB: AssetId = 1;
/// Collections of positions and of deposits.
const COLP: u128 = 1;
const COL: u128 = 55;
const PID: u128 = 70;

pub struct Nothing;
impl GetByKey<AssetId, (Permill, Permill)> for Nothing {
	fn get(_: &AssetId) -> (Permill, Permill) {
		(Permill::from_parts(0), Permill::from_parts(0))
	}
}
impl OmnipoolHooks<Origin, AccountId, AssetId, Balance> for Nothing {
	type Error = DispatchError;
	fn on_liquidity_changed(_: Origin, _: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		Ok(Weight::zero())
	}
	fn on_trade(_: Origin, _: AssetInfo<AssetId, Balance>, _: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		Ok(Weight::zero())
	}
	fn on_hub_asset_trade(_: Origin, _: AssetInfo<AssetId, Balance>) -> Result<Weight, DispatchError> {
		Ok(Weight::zero())
	}
	fn on_liquidity_changed_weight() -> Weight {
		Weight::zero()
	}
	fn on_trade_weight() -> Weight {
		Weight::zero()
	}
	fn on_trade_fee(_: AccountId, _: AccountId, _: AssetId, _: Balance) -> Result<Balance, DispatchError> {
		Ok(0)
	}
}
impl ShouldAllow<AccountId, AssetId, EmaPrice> for Nothing {
	fn ensure_price(_: &AccountId, _: AssetId, _: AssetId, _: EmaPrice) -> Result<(), ()> {
		Ok(())
	}
}
impl ExternalPriceProvider<AssetId, EmaPrice> for Nothing {
	type Error = DispatchError;
	fn get_price(_: AssetId, _: AssetId) -> Result<EmaPrice, DispatchError> {
		Err(DispatchError::Other("no price"))
	}
	fn get_price_weight() -> Weight {
		Weight::zero()
	}
}
/// The price of the second asset in the first.
pub struct Quotes;
impl AggregatedPriceOracle<AssetId, Block, EmaPrice> for Quotes {
	type Error = OracleError;
	fn get_price(a: AssetId, b: AssetId, p: OraclePeriod, s: Source) -> Result<(EmaPrice, Block), OracleError> {
		if NoPrice::get() || p != OraclePeriod::TenMinutes || s != *b"omnipool" {
			return Err(OracleError::NotPresent);
		}
		Asked::put((a, b));
		Ok((EmaPrice { n: PriceN::get(), d: PriceD::get() }, 0))
	}
	fn get_price_weight() -> Weight {
		Weight::zero()
	}
}
hrt::gets! {
	GXid: PalletId = PalletId(*b"omniLMpi");
	GCol: u128 = COL;
	GColP: u128 = COLP;
	GHub: AssetId = HUB;
	GHdx: AssetId = 0;
	GZero: u128 = 0;
	GNoFee: Permill = Permill::from_parts(0);
	GPeriod: OraclePeriod = OraclePeriod::TenMinutes;
	GSource: Source = *b"omnipool";
}
impl pallet_omnipool::Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type Currency = Ledger;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetRegistry = Registry;
	type HdxAssetId = GHdx;
	type HubAssetId = GHub;
	type Fee = Nothing;
	type MinWithdrawalFee = GNoFee;
	type MinimumTradingLimit = GZero;
	type MinimumPoolLiquidity = GZero;
	type MaxInRatio = GZero;
	type MaxOutRatio = GZero;
	type PositionItemId = u128;
	type CollectionId = u128;
	type NFTCollectionId = GColP;
	type NFTHandler = Items;
	type WeightInfo = ();
	type OmnipoolHooks = Nothing;
	type PriceBarrier = Nothing;
	type ExternalPriceOracle = Nothing;
}
impl pallet_omnipool_liquidity_mining::Config for Test {
	type RuntimeEvent = Ev;
	type Currency = Ledger;
	type CreateOrigin = frame_system::EnsureRoot<AccountId>;
	type PalletId = GXid;
	type NFTCollectionId = GCol;
	type NFTHandler = Items;
	type LiquidityMiningHandler = Lm;
	type OracleSource = GSource;
	type OraclePeriod = GPeriod;
	type PriceOracle = Quotes;
	type WeightInfo = ();
}
type X = pallet_omnipool_liquidity_mining::Pallet<Test>;
/// Which position is locked for which deposit, as the pallet stores it.
type Locked = pallet_omnipool_liquidity_mining::OmniPositionId<Test>;

/// A position, and the asset in the pool or not.
struct Held {
	amount: u128,
	shares: u128,
	nft: AccountId,
	listed: bool,
	asset: AssetId,
}
fn held() -> Held {
	let own: bool = any("own_asset");
	let h = Held { amount: any("p_amount"), shares: any("p_shares"), nft: if any::<bool>("user_has_nft") { USER } else { OTHER }, listed: any("listed"), asset: if own { POOL } else { POOL2 } };
	if h.listed {
		Assets::<Test>::insert(h.asset, recast::<(u128, u128, u128, u128, u8), AssetState<u128>>((any::<u128>("hub"), any::<u128>("all_shares"), 0, 0, 15)));
	}
	Positions::<Test>::insert(PID, Position { asset_id: h.asset, amount: h.amount, shares: h.shares, price: (any::<u128>("p_n"), any::<u128>("p_d")) });
	PriceN::put(any::<u128>("price_n"));
	PriceD::put(any::<u128>("price_d"));
	NoPrice::put(any::<bool>("no_price"));
	DepositSequencer::<Test>::put(DEP - 1);
	h
}
/// The position is the user's.
fn free(h: &Held) {
	Owners::insert(COLP, PID, h.nft);
}
/// The position is locked for a deposit of the user's.
fn locked(h: &Held) {
	Owners::insert(COLP, PID, X::account_id());
	Owners::insert(COL, DEP, h.nft);
	Locked::insert(DEP, PID);
}
fn is_free(a: AccountId) {
	check(Owners::get(COLP, PID) == Some(a), "the position is its owner's");
	check(Owners::get(COL, DEP).is_none() && Locked::get(DEP).is_none(), "nothing is left of the deposit");
}
fn is_locked(a: AccountId) {
	check(Owners::get(COLP, PID) == Some(X::account_id()), "the position is locked");
	check(Owners::get(COL, DEP) == Some(a) && Locked::get(DEP) == Some(PID), "for the owner of the deposit");
}
fn kept(h: &Held) {
	let p = Positions::<Test>::get(PID);
	check(p.is_some(), "the position stays");
	let p = p.unwrap();
	check(p.amount == h.amount && p.shares == h.shares && p.asset_id == h.asset, "the position stays as it is");
}
fn who() -> AccountId {
	if any::<bool>("user_calls") {
		USER
	} else {
		OTHER
	}
}
/// The claim that a withdrawal makes, and what it takes out of the farms, are assumed to be in order (P11).
fn in_order(w: &World, e: &E, leave: bool) {
	let _ = (|| {
		let (mut g, mut y, mut f) = (w.g.clone(), w.y.clone(), e.clone());
		if !y.state.is_terminated() {
			let x = fresh(w)?;
			g = x.0;
			fresh_yield(&mut g, &mut y, w.now)?;
			let k = claimed(w, &mut y, &mut f)?;
			if leave {
				assume(k.lost <= g.paid);
			}
		}
		if leave && y.state.is_active() {
			let s = math::calculate_global_farm_shares(e.valued, y.mult).ok()?;
			assume(s <= g.stake);
		}
		Some(())
	})();
}
fn shares_of() -> u128 {
	recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).shares
}
fn entries_of() -> usize {
	recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).entries.len()
}
/// What the position is worth in the hub asset.
fn worth(h: &Held, valued: u128) {
	let (v, n, d) = (int(valued), int(h.amount) * int(PriceN::get()), int(PriceD::get()));
	check(Asked::get() == (HUB, h.asset), "the price is that of the asset in the hub asset");
	check(!NoPrice::get(), "a deposit needs a price");
	check(v.clone() * d.clone() <= n.clone() && n < (v + int(1u128)) * d, "the deposit counts with the worth of its amount in the hub asset");
}
fn deposit(state: FarmState) {
	let runs = state.is_active();
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	free(&h);
	let c = who();
	let r = dispatch(|| X::deposit_shares(Origin::signed(c), GF, YF, PID));
	kept(&h);
	if r.is_err() {
		is_free(h.nft);
		check(!Deposit::<Test>::contains_key(DEP), "a refused call makes no deposit");
		return;
	}
	check(runs, "an active farm only takes deposits");
	check(c == h.nft, "only its owner deposits a position");
	check(h.listed && h.asset == POOL, "of an asset in the pool, that of the farm");
	is_locked(c);
	let d = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap());
	check(d.shares == h.shares && d.pool == POOL && d.entries.len() == 1, "the deposit is of the shares of the position");
	worth(&h, read_e(DEP).valued);
}
fn redeposit(twin: bool) {
	let w = world(FarmState::Active);
	assume(w.g.updated_at == w.now);
	let h = held();
	locked(&h);
	let mut d = DepositData::<Test>::new(h.shares, h.asset);
	let mut f = foreign();
	if twin {
		f.yfarm = YF;
	}
	let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(f));
	Deposit::<Test>::insert(DEP, d);
	let c = who();
	let r = dispatch(|| X::redeposit_shares(Origin::signed(c), GF, YF, DEP));
	kept(&h);
	is_locked(h.nft);
	check(shares_of() == h.shares, "the shares stay locked");
	if r.is_err() {
		check(entries_of() == 1, "a refused call adds no entry");
		return;
	}
	check(c == h.nft, "only the owner of the deposit puts it in another farm");
	check(h.listed && h.asset == POOL, "of an asset in the pool, that of the farm");
	check(!twin && entries_of() == 2, "a deposit enters a farm once");
	worth(&h, read_e(DEP).valued);
}
fn withdraw(state: FarmState, two: bool) {
	let ended = state.is_terminated();
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	assume(h.asset == POOL);
	locked(&h);
	let e = entry(&w, two);
	assume(shares_of() == h.shares);
	in_order(&w, &e, true);
	let c = who();
	let r = dispatch(|| X::withdraw_shares(Origin::signed(c), DEP, YF));
	kept(&h);
	if r.is_err() {
		is_locked(h.nft);
		check(Deposit::<Test>::contains_key(DEP) && shares_of() == h.shares, "a refused call leaves the deposit");
		if ended {
			check(c != h.nft, "the owner can always take the position out of an ended farm");
		}
		return;
	}
	check(c == h.nft, "only the owner of the deposit takes it out");
	if two {
		is_locked(c);
		check(Deposit::<Test>::contains_key(DEP) && shares_of() == h.shares && entries_of() == 1, "a deposit that is in another farm stays");
		return;
	}
	is_free(c);
	check(!Deposit::<Test>::contains_key(DEP), "the deposit is gone");
}
fn claim(state: FarmState) {
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	locked(&h);
	let e = entry(&w, false);
	in_order(&w, &e, false);
	let c = who();
	Free::insert(c, R, w.user);
	let r = dispatch(|| X::claim_rewards(Origin::signed(c), DEP, YF));
	kept(&h);
	is_locked(h.nft);
	if r.is_err() {
		check(Free::get(c, R) == w.user && Free::get(pot(), R) == w.pot && read_e(DEP).claimed == e.claimed, "a refused claim changes nothing");
		return;
	}
	check(c == h.nft, "only the owner of the deposit claims");
	check(Free::get(c, R) > w.user, "a claim pays something, to the caller");
	check(read_e(DEP).claimed > e.claimed, "and is remembered");
}
/// The calls that manage farms: for the farm's owner; those that start something for assets in the pool.
fn manage(which: u8, state: FarmState) {
	let mut w = world(state);
	if which == 4 {
		w.g.live = any("live");
		GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(w.g.clone()));
	}
	assume(w.g.updated_at == w.now);
	let h = held();
	let owner: bool = any("owner_calls");
	let c = if owner { OWNER } else { OTHER };
	let m = fixed("new_mult");
	if let Ok(s) = math::calculate_global_farm_shares(w.y.valued, w.y.mult) {
		assume(s <= w.g.stake);
	}
	// what is left was paid to the farm
	assume(w.y.left <= w.g.paid);
	let s = w.y.state.clone();
	let own = h.asset == POOL;
	let r = dispatch(|| match which {
		0 => X::update_yield_farm(Origin::signed(c), GF, h.asset, m),
		1 => X::stop_yield_farm(Origin::signed(c), GF, h.asset),
		2 => X::resume_yield_farm(Origin::signed(c), GF, YF, h.asset, m),
		3 => X::terminate_yield_farm(Origin::signed(c), GF, YF, h.asset),
		_ => X::terminate_global_farm(Origin::signed(c), GF),
	});
	kept(&h);
	if r.is_err() {
		let y = read_y();
		check(y.mult == w.y.mult && y.state == s && y.left == w.y.left, "a refused call leaves the farm");
		check(Free::get(pot(), R) == w.pot && Free::get(purse(), R) == w.purse, "and its money");
		if which == 3 {
			check(!(owner && own && s == FarmState::Stopped), "the owner can always end a stopped farm, of an asset in the pool or not");
		}
		return;
	}
	check(owner, "only its owner manages a farm");
	if which < 4 {
		check(own, "a farm is that of its asset");
	}
	if which == 0 || which == 2 {
		check(h.listed, "a farm runs for an asset in the pool");
		check(read_y().mult == m && read_y().state == FarmState::Active, "with the new multiplier");
	}
	if which == 2 {
		check(s == FarmState::Stopped, "a stopped farm is resumed");
	}
	if which == 1 {
		check(s == FarmState::Active && read_y().state == FarmState::Stopped, "an active farm is stopped");
	}
	if which == 3 {
		check(s == FarmState::Stopped && (!YieldFarm::<Test>::contains_key((POOL, GF, YF)) || read_y().state == FarmState::Terminated), "a stopped farm is ended");
	}
	if which == 4 {
		check(w.g.live == 0, "a global farm ends without live yield farms");
	}
}
fn open_farm() {
	let w = world(FarmState::Active);
	let root: bool = any("root_calls");
	FarmSequencer::<Test>::put(100u32);
	let total: u128 = any("rewards");
	let rate = Perquintill::from_parts(any::<u64>("rate") % 1_000_000_000_000_000_001);
	MinRewards::put(any::<u128>("least_rewards"));
	MinPeriods::put(any::<u32>("least_periods"));
	let o = if root { Origin::root() } else { Origin::signed(OWNER) };
	let planned: Block = any("planned");
	let min: u128 = any("min_deposit");
	let price = fixed("price");
	let bpp: Block = any("bpp");
	let r = dispatch(|| X::create_global_farm(o, total, planned, bpp, R, OWNER, rate, min, price));
	check(Free::get(pot(), R) == w.pot, "the pot is left alone");
	if r.is_err() {
		check(Free::get(OWNER, R) == w.owner, "a refused call costs nothing");
		check(FarmSequencer::<Test>::get() == 100 && GlobalFarm::<Test>::get(101u32).is_none(), "a refused call makes no farm");
		return;
	}
	check(root, "farms are created by the authority");
	check(int(Free::get(OWNER, R)) == int(w.owner) - int(total), "the owner pays the rewards");
	check(int(Free::get(Lm::farm_account_id(101).unwrap(), R)) == int(total), "the farm gets the rewards");
	let g = recast::<GlobalFarmData<Test>, G>(GlobalFarm::<Test>::get(101u32).unwrap());
	check(g.owner == OWNER && g.currency == R && g.asset == HUB && g.rate == rate && g.planned == planned && g.bpp == bpp && g.min_deposit == min && g.price == price, "on the terms of the call, for the hub asset");
}
fn open_yield_farm() {
	let mut w = world_of(FarmState::Active, FarmState::Stopped);
	assume(w.g.updated_at == w.now);
	w.g.asset = HUB;
	GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(w.g.clone()));
	let h = held();
	FarmSequencer::<Test>::put(100u32);
	let owner: bool = any("owner_calls");
	let c = if owner { OWNER } else { OTHER };
	let m = fixed("new_mult");
	let r = dispatch(|| X::create_yield_farm(Origin::signed(c), GF, h.asset, m, None));
	if r.is_err() {
		check(ActiveYieldFarm::<Test>::get(h.asset, GF).is_none(), "a refused call makes no farm");
		return;
	}
	check(owner, "only its owner adds farms");
	check(h.listed, "a farm is for an asset in the pool");
	check(ActiveYieldFarm::<Test>::get(h.asset, GF) == Some(101), "the farm is that of the asset");
	let y = recast::<YieldFarmData<Test>, Y>(YieldFarm::<Test>::get((h.asset, GF, 101u32)).unwrap());
	check(y.mult == m && y.curve.is_none() && y.valued == 0, "on the terms of the call");
}

harness! {
	fn h_p23_withdraw_ended() {
		withdraw(FarmState::Terminated, false);
	}
	fn h_p23_withdraw_ended_two() {
		withdraw(FarmState::Terminated, true);
	}
	fn h_p23_withdraw_stopped() {
		withdraw(FarmState::Stopped, false);
	}
	fn h_p23_withdraw() {
		withdraw(FarmState::Active, false);
	}
	fn h_p23_deposit() {
		deposit(FarmState::Active);
	}
	fn h_p23_deposit_stopped() {
		deposit(FarmState::Stopped);
	}
	fn h_p23_redeposit() {
		redeposit(false);
	}
	fn h_p23_redeposit_again() {
		redeposit(true);
	}
	fn h_p23_claim() {
		claim(FarmState::Active);
	}
	fn h_p23_claim_ended() {
		claim(FarmState::Terminated);
	}
	fn h_p23_update() {
		manage(0, FarmState::Active);
	}
	fn h_p23_stop() {
		manage(1, FarmState::Active);
	}
	fn h_p23_resume() {
		manage(2, FarmState::Stopped);
	}
	fn h_p23_end() {
		manage(3, FarmState::Stopped);
	}
	fn h_p23_end_active() {
		manage(3, FarmState::Active);
	}
	fn h_p23_end_global() {
		manage(4, FarmState::Stopped);
	}
	fn h_p23_open() {
		open_farm();
	}
	fn h_p23_open_yield() {
		open_yield_farm();
	}
}
