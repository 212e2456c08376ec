use codec::{Decode, Encode};
use frame_support::pallet_prelude::*;
use frame_support::rt::recast;
use frame_support::PalletId;
use hrt::*;
use hydra_dx_math::liquidity_mining as math;
use hydradx_traits::liquidity_mining::{Mutate, PriceAdjustment};
use pallet_liquidity_mining::{ActiveYieldFarm, Config, Deposit, DepositData, DepositSequencer, FarmSequencer, FarmState, GlobalFarm, GlobalFarmData, LoyaltyCurve, Pallet, YieldFarm, YieldFarmData, YieldFarmEntry};
use sp_arithmetic::{traits::Saturating, FixedPointNumber, FixedU128, Perquintill};
use sp_runtime::DispatchError;
use symx::*;

hrt::runtime!(pallet_liquidity_mining);
impl scale_info::TypeInfo for Test {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		unimplemented!()
	}
}
hrt::cells! {
	CMinRewards MinRewards: u128 = 102;
	CMinPeriods MinPeriods: u32 = 103;
	COracle Oracle: u128 = 104;
	CNoOracle NoOracle: bool = 105;
	CValue Value: u128 = 106;
	CNoValue NoValue: bool = 107;
	CShares Shares: u128 = 108;
}
pub struct PDust;
impl frame_support::storage::StorageInstance for PDust {
	fn id() -> u64 {
		150
	}
}
/// Accounts kept from the dusting.
pub type Safe = StorageMap<PDust, Identity, AccountId, bool, ValueQuery>;
pub struct Whitelist;
impl hydradx_traits::pools::DustRemovalAccountWhitelist<AccountId> for Whitelist {
	type Error = DispatchError;
	fn add_account(a: &AccountId) -> DispatchResult {
		Safe::insert(a, true);
		Ok(())
	}
	fn remove_account(a: &AccountId) -> DispatchResult {
		Safe::remove(a);
		Ok(())
	}
}
pub struct Prices;
impl PriceAdjustment<GlobalFarmData<Test>> for Prices {
	type Error = DispatchError;
	type PriceAdjustment = FixedU128;
	fn get(_: &GlobalFarmData<Test>) -> Result<FixedU128, DispatchError> {
		if NoOracle::get() {
			return Err(DispatchError::Other("oracle"));
		}
		Ok(FixedU128::from_inner(Oracle::get()))
	}
}
hrt::gets! {
	GPid: PalletId = PalletId(*b"liq/mine");
	GTreasury: AccountId = TREASURY;
	GMinRewards: Balance = MinRewards::get();
	GMinPeriods: Block = MinPeriods::get();
	GFarms: u32 = 20;
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type MultiCurrency = Ledger;
	type PalletId = GPid;
	type TreasuryAccountId = GTreasury;
	type MinTotalFarmRewards = GMinRewards;
	type MinPlannedYieldingPeriods = GMinPeriods;
	type BlockNumberProvider = hrt::Clock;
	type AmmPoolId = u32;
	type MaxFarmEntriesPerDeposit = ConstU32<2>;
	type MaxYieldFarmsPerGlobalFarm = GFarms;
	type AssetRegistry = Registry;
	type NonDustableWhitelistHandler = Whitelist;
	type PriceAdjustment = Prices;
}
type Lm = Pallet<Test>;

const R: AssetId = 10;
const INC: AssetId = 11;
const OTHER: AssetId = 12;
const OWNER: AccountId = 7;
const USER: AccountId = 8;
const TREASURY: AccountId = 9;
const GF: u32 = 3;
const YF: u32 = 5;
const POOL: u32 = 40;
const DEP: u128 = 21;

/// The farms as the pallet stores them.
#[derive(Clone, Encode, Decode)]
struct G {
	id: u32,
	owner: AccountId,
	updated_at: Block,
	stake: u128,
	rpz: FixedU128,
	currency: AssetId,
	pending: u128,
	paid: u128,
	rate: Perquintill,
	planned: Block,
	bpp: Block,
	asset: AssetId,
	most: u128,
	min_deposit: u128,
	live: u32,
	total: u32,
	price: FixedU128,
	state: FarmState,
}
#[derive(Clone, Encode, Decode)]
struct Y {
	id: u32,
	updated_at: Block,
	shares: u128,
	valued: u128,
	rpvs: FixedU128,
	rpz: FixedU128,
	curve: Option<LoyaltyCurve>,
	mult: FixedU128,
	state: FarmState,
	entries: u64,
	left: u128,
	stopped: Block,
}
#[derive(Clone, Encode, Decode)]
struct E {
	global: u32,
	yfarm: u32,
	valued: u128,
	rpvs: FixedU128,
	claimed: u128,
	entered: Block,
	updated: Block,
	stopped: Block,
}
fn stored(a: &FixedU128) -> u128 {
	a.into_inner()
}
fn fixed(n: &'static str) -> FixedU128 {
	FixedU128::from_inner(any::<u128>(n))
}
fn read_g() -> G {
	recast::<GlobalFarmData<Test>, G>(GlobalFarm::<Test>::get(GF).unwrap())
}
fn read_y() -> Y {
	recast::<YieldFarmData<Test>, Y>(YieldFarm::<Test>::get((POOL, GF, YF)).unwrap())
}
/// A deposit as the pallet stores it.
#[derive(Encode, Decode)]
struct D {
	shares: u128,
	pool: u32,
	entries: BoundedVec<YieldFarmEntry<Test>, ConstU32<2>>,
}
fn read_e(id: u128) -> E {
	let mut d = Deposit::<Test>::get(id).unwrap();
	recast::<YieldFarmEntry<Test>, E>(d.get_yield_farm_entry(YF).unwrap().clone())
}
fn pot() -> AccountId {
	Lm::pot_account_id().unwrap()
}
fn purse() -> AccountId {
	Lm::farm_account_id(GF).unwrap_or(0)
}

/// One global farm with one yield farm; the pot also holds what it owes for other farms.
struct World {
	g: G,
	y: Y,
	pot: u128,
	purse: u128,
	user: u128,
	treasury: u128,
	owner: u128,
	ed: u128,
	now: Block,
}
fn world(state: FarmState) -> World {
	world_of(FarmState::Active, state)
}
fn world_of(g_state: FarmState, state: FarmState) -> World {
	let bpp: Block = any("blocks_per_period");
	let block: Block = any("block");
	assume(bpp > 0);
	BlockNumber::put(block);
	let now = block / bpp;
	let g = G {
		id: GF,
		owner: OWNER,
		updated_at: any("g_updated"),
		stake: any("g_stake"),
		rpz: fixed("g_rpz"),
		currency: R,
		pending: any("g_pending"),
		paid: any("g_paid"),
		rate: Perquintill::from_parts(any::<u64>("g_rate") % 1_000_000_000_000_000_001),
		planned: any("g_planned"),
		bpp,
		asset: INC,
		most: any("g_most"),
		min_deposit: any("g_min_deposit"),
		live: any("g_live"),
		total: any("g_total"),
		price: fixed("g_price"),
		state: g_state,
	};
	let y = Y {
		id: YF,
		updated_at: any("y_updated"),
		shares: any("y_shares"),
		valued: any("y_valued"),
		rpvs: fixed("y_rpvs"),
		rpz: fixed("y_rpz"),
		curve: Some(LoyaltyCurve { initial_reward_percentage: fixed("y_curve"), scale_coef: any("y_scale") }),
		mult: fixed("y_mult"),
		state,
		entries: any("y_entries"),
		left: any("y_left"),
		stopped: any("y_stopped"),
	};
	assume(g.updated_at <= now && y.updated_at <= g.updated_at);
	assume(g.live >= 1 && g.total >= g.live);
	let w = World { g, y, pot: any("pot"), purse: any("purse"), user: any("user"), treasury: any("treasury"), owner: any("owner"), ed: any("ed"), now };
	// nothing is left in an ended farm
	assume(!w.y.state.is_terminated() || w.y.left == 0);
	// The pot holds what the farm has to give, and what other farms have.
	assume(int(w.pot) >= int(w.g.pending) + int(w.y.left));
	assume(int(w.pot) + int(w.purse) + int(w.user) + int(w.treasury) + int(w.owner) <= max128());
	GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(w.g.clone()));
	YieldFarm::<Test>::insert((POOL, GF, YF), recast::<Y, YieldFarmData<Test>>(w.y.clone()));
	if w.y.state.is_active() {
		ActiveYieldFarm::<Test>::insert(POOL, GF, YF);
	}
	for_money(&w);
	Deposits::insert(R, w.ed);
	NoOracle::put(true);
	w
}
fn for_money(w: &World) {
	Free::insert(pot(), R, w.pot);
	Free::insert(purse(), R, w.purse);
	Free::insert(USER, R, w.user);
	Free::insert(TREASURY, R, w.treasury);
	Free::insert(OWNER, R, w.owner);
}
/// Twenty-one: a deposit with an entry of the yield farm and, maybe, one of another farm.
fn entry(w: &World, two: bool) -> E {
	let e = E { global: GF, yfarm: YF, valued: any("e_valued"), rpvs: fixed("e_rpvs"), claimed: any("e_claimed"), entered: any("e_entered"), updated: any("e_updated"), stopped: any("e_stopped") };
	let shares: u128 = any("e_shares");
	let mut d = DepositData::<Test>::new(shares, POOL);
	if two {
		let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(foreign()));
	}
	let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(e.clone()));
	Deposit::<Test>::insert(DEP, d);
	// the entry is one of those counted, and no older than the farm's stops
	assume(e.valued <= w.y.valued && shares <= w.y.shares && w.y.entries >= 1);
	assume(e.stopped <= w.y.stopped && int(e.entered) + int(w.y.stopped) - int(e.stopped) <= int(w.y.updated_at));
	e
}
fn foreign() -> E {
	E { global: 30, yfarm: 50, valued: 5, rpvs: FixedU128::from_inner(0), claimed: 0, entered: 0, updated: 0, stopped: 0 }
}
/// What bringing the global farm up to date does: the rewards of the periods since, at most what is left,
/// go to the pot. None: the call is refused.
fn fresh(w: &World) -> Option<(G, u128)> {
	let mut g = w.g.clone();
	let mut moved = 0;
	if g.state.is_active() && g.updated_at != w.now {
		if g.stake != 0 {
			if !NoOracle::get() {
				g.price = FixedU128::from_inner(Oracle::get());
			}
			let due = math::calculate_global_farm_rewards(g.stake, g.price, g.rate.into(), g.most, (w.now - g.updated_at) as u128).ok()?;
			moved = due.min(w.purse.saturating_sub(w.ed));
			if moved != 0 {
				g.rpz = math::calculate_accumulated_rps(g.rpz, g.stake, moved).ok()?;
				g.pending = g.pending.checked_add(moved)?;
			}
		}
		g.updated_at = w.now;
	}
	Some((g, moved))
}
/// And the yield farm: it is given its part of the pending rewards.
fn fresh_yield(g: &mut G, y: &mut Y, now: Block) -> Option<()> {
	if !y.state.is_active() || y.updated_at == now {
		return Some(());
	}
	if y.valued != 0 {
		let (rpvs, got) = math::calculate_yield_farm_rewards(y.rpz, g.rpz, y.mult, y.valued).ok()?;
		g.paid = g.paid.checked_add(got)?;
		g.pending = g.pending.checked_sub(got)?;
		y.rpvs = FixedU128::from_inner(stored(&y.rpvs).checked_add(stored(&rpvs))?);
		y.left = y.left.checked_add(got)?;
	}
	y.rpz = g.rpz;
	y.updated_at = now;
	Some(())
}
/// What a claim does besides: pays the entry its rewards (sums too small for a new account go to the treasury).
struct Claim {
	pay: u128,
	lost: u128,
	small: bool,
}
fn claimed(w: &World, y: &mut Y, e: &mut E) -> Option<Claim> {
	let l = match y.curve.clone() {
		Some(c) => math::calculate_loyalty_multiplier(y.updated_at - e.entered - (y.stopped - e.stopped), c.initial_reward_percentage, c.scale_coef).ok()?,
		None => FixedU128::from_inner(1_000_000_000_000_000_000),
	};
	// the multiplier is at most one and the rewards of an entry are part of its farm's: M50 to M52
	assume(stored(&l) <= 1_000_000_000_000_000_000);
	let (pay, lost) = math::calculate_user_reward(e.rpvs, e.valued, e.claimed, y.rpvs, l).ok()?;
	assume(int(pay) + int(lost) <= int(y.left));
	y.left -= pay;
	if pay != 0 {
		e.claimed = e.claimed.checked_add(pay)?;
		e.updated = w.now;
	}
	Some(Claim { pay, lost, small: pay < w.ed && w.user < w.ed })
}
fn stake(valued: u128, mult: FixedU128) -> Option<u128> {
	math::calculate_global_farm_shares(valued, mult).ok()
}
fn same_g(g: &G) {
	let n = read_g();
	check(n.stake == g.stake, "the stake in the farm is that of its active yield farms");
	check(n.pending == g.pending && n.paid == g.paid, "rewards are accounted for");
	check(n.rpz == g.rpz && n.updated_at == g.updated_at && n.price == g.price, "the farm is up to date");
	check(n.live == g.live && n.total == g.total, "yield farms are counted");
	check(n.id == g.id && n.owner == g.owner && n.currency == g.currency && n.rate == g.rate && n.planned == g.planned && n.bpp == g.bpp && n.asset == g.asset && n.most == g.most && n.min_deposit == g.min_deposit && n.state == g.state, "the terms of the farm stay");
}
fn same_y(y: &Y) {
	let n = read_y();
	check(n.shares == y.shares && n.valued == y.valued && n.entries == y.entries, "deposits are counted");
	check(n.left == y.left, "what is left to claim is accounted for");
	check(n.rpvs == y.rpvs && n.rpz == y.rpz && n.updated_at == y.updated_at && n.stopped == y.stopped, "the yield farm is up to date");
	check(n.mult == y.mult && n.state == y.state && n.id == y.id && n.curve == y.curve, "the terms of the yield farm stay");
}
fn same_e(id: u128, e: &E) {
	let n = read_e(id);
	check(n.valued == e.valued && n.rpvs == e.rpvs && n.entered == e.entered && n.stopped == e.stopped && n.global == e.global && n.yfarm == e.yfarm, "the entry keeps its terms");
	check(n.claimed == e.claimed && n.updated == e.updated, "the entry knows what was claimed");
}
/// Changes of the free balances of the pot, the farm, the user, the treasury and the owner.
fn money(w: &World, p: Int, f: Int, u: Int, t: Int, o: Int) {
	check(int(Free::get(pot(), R)) - int(w.pot) == p, "the pot pays and gets exactly that");
	check(int(Free::get(purse(), R)) - int(w.purse) == f, "the farm account pays and gets exactly that");
	check(int(Free::get(USER, R)) - int(w.user) == u, "the user gets exactly that");
	check(int(Free::get(TREASURY, R)) - int(w.treasury) == t, "the treasury gets exactly that");
	check(int(Free::get(OWNER, R)) - int(w.owner) == o, "the owner gets exactly that");
}
fn zero() -> Int {
	int(0u128)
}
/// What the pot holds for others stays, and all that this farm still owes is there.
fn backed(w: &World, g: &G, y: Option<&Y>) {
	let others = int(w.pot) - int(w.g.pending) - int(w.y.left);
	let l = match y {
		Some(y) => y.left,
		None => 0,
	};
	check(int(Free::get(pot(), R)) == others + int(g.pending) + int(l), "the pot holds exactly what the farms still owe");
}
fn active() -> Option<u32> {
	ActiveYieldFarm::<Test>::get(POOL, GF)
}
fn unchanged(w: &World) {
	same_g(&w.g);
	same_y(&w.y);
	check(active() == if w.y.state.is_active() { Some(YF) } else { None }, "a refused call does not switch the farm");
	money(w, zero(), zero(), zero(), zero(), zero());
}
fn caller() -> AccountId {
	if any::<bool>("owner_calls") {
		OWNER
	} else {
		USER
	}
}
/// Whether the call went as it should.
fn went<A, B>(r: &Result<A, DispatchError>, want: &Option<B>) -> bool {
	check(r.is_ok() == want.is_some(), "the call succeeds exactly when it should");
	r.is_ok() && want.is_some()
}

fn claim(state: FarmState, two: bool, curved: bool) {
	let mut w = world(state);
	if !curved {
		w.y.curve = None;
		YieldFarm::<Test>::insert((POOL, GF, YF), recast::<Y, YieldFarmData<Test>>(w.y.clone()));
	}
	let e = entry(&w, two);
	let want = (|| {
		if w.y.state.is_terminated() || e.updated == w.now {
			return None;
		}
		let (mut g, moved) = fresh(&w)?;
		let (mut y, mut f) = (w.y.clone(), e.clone());
		fresh_yield(&mut g, &mut y, w.now)?;
		let c = claimed(&w, &mut y, &mut f)?;
		Some((g, y, f, moved, c))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::claim_rewards(USER, DEP, YF));
	if !went(&r, &want) {
		unchanged(&w);
		same_e(DEP, &e);
		return;
	}
	let (gid, c, got, lost) = r.unwrap();
	let (g, y, f, moved, k) = want.unwrap();
	check(gid == GF && c == R, "the farm is that of the entry");
	check(lost == k.lost, "what is not earned yet is reported");
	check(got == if k.small { 0 } else { k.pay }, "what the user gets is reported");
	same_g(&g);
	same_y(&y);
	same_e(DEP, &f);
	money(&w, int(moved) - int(k.pay), zero() - int(moved), if k.small { zero() } else { int(k.pay) }, if k.small { int(k.pay) } else { zero() }, zero());
	backed(&w, &g, Some(&y));
}
/// A new entry; the second half of depositing and redepositing.
fn entering(w: &World, shares: u128) -> Option<(G, Y, E, u128)> {
	if !w.y.state.is_active() || shares < w.g.min_deposit {
		return None;
	}
	let (mut g, moved) = fresh(w)?;
	let mut y = w.y.clone();
	fresh_yield(&mut g, &mut y, w.now)?;
	if NoValue::get() {
		return None;
	}
	let v = Value::get();
	if v < g.min_deposit {
		return None;
	}
	let s = stake(v, y.mult)?;
	y.shares = y.shares.checked_add(shares)?;
	y.valued = y.valued.checked_add(v)?;
	g.stake = g.stake.checked_add(s)?;
	y.entries = y.entries.checked_add(1)?;
	let e = E { global: GF, yfarm: YF, valued: v, rpvs: y.rpvs, claimed: 0, entered: w.now, updated: w.now, stopped: y.stopped };
	Some((g, y, e, moved))
}
fn value_of(a: AssetId, pool: u32, shares: u128) -> Result<u128, DispatchError> {
	check(a == INC && pool == POOL && shares == Shares::get(), "what is valued is the deposit");
	if NoValue::get() {
		return Err(DispatchError::Other("value"));
	}
	Ok(Value::get())
}
fn valued(shares: u128) {
	Shares::put(shares);
	Value::put(any::<u128>("value"));
	NoValue::put(any::<bool>("no_value"));
}
fn deposit(state: FarmState) {
	let w = world(state);
	let shares: u128 = any("shares");
	let last: u128 = any("last_deposit");
	DepositSequencer::<Test>::put(last);
	valued(shares);
	let want = entering(&w, shares);
	let want = if last == u128::MAX { None } else { want };
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::deposit_lp_shares(GF, YF, POOL, shares, value_of));
	if !went(&r, &want) {
		unchanged(&w);
		check(DepositSequencer::<Test>::get() == last, "a refused deposit is not counted");
		return;
	}
	let (g, y, e, moved) = want.unwrap();
	let id = r.unwrap();
	check(int(id) == int(last) + int(1u128) && DepositSequencer::<Test>::get() == id, "deposits are numbered");
	let d = recast::<DepositData<Test>, D>(Deposit::<Test>::get(id).unwrap());
	check(d.shares == shares && d.pool == POOL && d.entries.len() == 1, "the deposit is what was deposited");
	same_g(&g);
	same_y(&y);
	same_e(id, &e);
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn redeposit(state: FarmState) {
	let w = world(state);
	let shares: u128 = any("shares");
	let mut d = DepositData::<Test>::new(shares, POOL);
	let had: u32 = any("entries");
	assume(had <= 2);
	if had > 0 {
		let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(foreign()));
	}
	let twin = any::<bool>("already_in");
	if had > 1 {
		let mut f = foreign();
		f.yfarm = if twin { YF } else { 51 };
		let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(f));
	}
	Deposit::<Test>::insert(DEP, d);
	valued(shares);
	let want = if had > 1 { None } else { entering(&w, shares) };
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::redeposit_lp_shares(GF, YF, DEP, value_of));
	let now = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap());
	check(now.shares == shares && now.pool == POOL, "the shares stay locked");
	if !went(&r, &want) {
		unchanged(&w);
		check(now.entries.len() as u32 == had, "a refused call adds no entry");
		return;
	}
	let (g, y, e, moved) = want.unwrap();
	check(r.unwrap() == (shares, POOL), "the deposit is reported");
	check(now.entries.len() as u32 == had + 1, "one entry is added");
	same_g(&g);
	same_y(&y);
	same_e(DEP, &e);
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn withdraw(g_state: FarmState, state: FarmState, two: bool, on_time: bool) {
	let w = world_of(g_state, state);
	if on_time {
		assume(w.g.updated_at == w.now);
	}
	let e = entry(&w, two);
	let shares = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).shares;
	let both = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).entries.len() == 2;
	let want = (|| {
		let (mut g, mut y, mut f) = (w.g.clone(), w.y.clone(), e.clone());
		let (mut moved, mut k) = (0, Claim { pay: 0, lost: 0, small: false });
		if !y.state.is_terminated() {
			let x = fresh(&w)?;
			g = x.0;
			moved = x.1;
			fresh_yield(&mut g, &mut y, w.now)?;
			k = claimed(&w, &mut y, &mut f)?;
			assume(k.lost <= g.paid);
			y.left -= k.lost;
			g.paid -= k.lost;
		}
		if y.state.is_active() {
			let s = stake(e.valued, y.mult)?;
			assume(s <= g.stake);
			g.stake -= s;
		}
		y.shares -= shares;
		y.valued -= e.valued;
		y.entries -= 1;
		Some((g, y, moved, k))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::withdraw_lp_shares(USER, DEP, GF, YF, POOL));
	if !went(&r, &want) {
		unchanged(&w);
		same_e(DEP, &e);
		return;
	}
	let (mut g, y, moved, k) = want.unwrap();
	let (amount, told, gone) = r.unwrap();
	check(amount == shares, "all shares of the deposit are given back");
	check(gone == !both && Deposit::<Test>::contains_key(DEP) == both, "the deposit goes with its last entry");
	if both {
		let d = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap());
		check(d.shares == shares && d.pool == POOL && d.entries.len() == 1, "other entries stay");
		check(DepositData::<Test>::search_yield_farm_entry(&Deposit::<Test>::get(DEP).unwrap(), 50) == Some(0), "other entries stay");
	}
	let paid = if k.small { 0 } else { k.pay };
	if y.state.is_terminated() {
		check(told.is_none(), "nothing is claimed from a terminated farm");
	} else {
		check(told == Some((R, paid, k.lost)), "what the user gets is reported");
	}
	let out = y.state.is_terminated() && y.entries == 0;
	if out {
		g.total -= 1;
	}
	let over = g.state.is_terminated() && g.total == 0;
	check(YieldFarm::<Test>::contains_key((POOL, GF, YF)) == !out, "a terminated farm goes with its last entry");
	check(GlobalFarm::<Test>::contains_key(GF) == !over, "a terminated global farm goes with its last yield farm");
	if !over {
		same_g(&g);
	}
	if !out {
		same_y(&y);
	}
	money(&w, int(moved) - int(k.pay) - int(k.lost), int(k.lost) - int(moved), int(paid), int(k.pay) - int(paid), zero());
	// (what was pending in an ended farm stays there unclaimed)
	backed(&w, &g, if out { None } else { Some(&y) });
}
fn min_mult() -> FixedU128 {
	FixedU128::from_inner(1_000_000_000_000_000)
}
fn multiplier(state: FarmState) {
	let w = world(state);
	let who = caller();
	let m = fixed("multiplier");
	let want = (|| {
		if m < min_mult() || who != OWNER || !w.y.state.is_active() {
			return None;
		}
		let old = stake(w.y.valued, w.y.mult)?;
		assume(old <= w.g.stake);
		let (mut g, moved) = fresh(&w)?;
		let mut y = w.y.clone();
		fresh_yield(&mut g, &mut y, w.now)?;
		let new = stake(y.valued, m)?;
		g.stake = (g.stake - old).checked_add(new)?;
		y.mult = m;
		Some((g, y, moved))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::update_yield_farm_multiplier(who, GF, POOL, m));
	if !went(&r, &want) {
		unchanged(&w);
		return;
	}
	let (g, y, moved) = want.unwrap();
	check(r.unwrap() == YF, "the farm is reported");
	check(active() == Some(YF), "the farm stays active");
	same_g(&g);
	same_y(&y);
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn stop(state: FarmState) {
	let w = world(state);
	let who = caller();
	let want = (|| {
		if who != OWNER || !w.y.state.is_active() {
			return None;
		}
		let (mut g, moved) = fresh(&w)?;
		let mut y = w.y.clone();
		fresh_yield(&mut g, &mut y, w.now)?;
		let old = stake(y.valued, y.mult)?;
		assume(old <= g.stake);
		g.stake -= old;
		y.state = FarmState::Stopped;
		y.mult = FixedU128::from_inner(0);
		Some((g, y, moved))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::stop_yield_farm(who, GF, POOL));
	if !went(&r, &want) {
		unchanged(&w);
		return;
	}
	let (g, y, moved) = want.unwrap();
	check(r.unwrap() == YF, "the farm is reported");
	check(active().is_none(), "a stopped farm is not active");
	same_g(&g);
	same_y(&y);
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn resume(state: FarmState) {
	let w = world(state);
	let who = caller();
	let m = fixed("multiplier");
	let other = any::<bool>("other_is_active");
	if other && !w.y.state.is_active() {
		ActiveYieldFarm::<Test>::insert(POOL, GF, 6);
	}
	let want = (|| {
		if m < min_mult() || who != OWNER || !w.y.state.is_stopped() || other {
			return None;
		}
		let (mut g, moved) = fresh(&w)?;
		let mut y = w.y.clone();
		let new = stake(y.valued, m)?;
		g.stake = g.stake.checked_add(new)?;
		// the time stopped is not farmed
		y.stopped = y.stopped.checked_add(w.now - y.updated_at)?;
		y.rpz = g.rpz;
		y.updated_at = w.now;
		y.state = FarmState::Active;
		y.mult = m;
		Some((g, y, moved))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::resume_yield_farm(who, GF, YF, POOL, m));
	if !went(&r, &want) {
		same_g(&w.g);
		same_y(&w.y);
		money(&w, zero(), zero(), zero(), zero(), zero());
		check(active() == if w.y.state.is_active() { Some(YF) } else if other { Some(6) } else { None }, "one active farm a pool");
		return;
	}
	let (g, y, moved) = want.unwrap();
	check(active() == Some(YF), "a resumed farm is active");
	same_g(&g);
	same_y(&y);
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn terminate(state: FarmState) {
	let w = world(state);
	let who = caller();
	let want = (|| {
		if who != OWNER || !w.y.state.is_stopped() {
			return None;
		}
		let (mut g, mut y) = (w.g.clone(), w.y.clone());
		g.paid = g.paid.checked_sub(y.left)?;
		y.left = 0;
		y.state = FarmState::Terminated;
		g.live -= 1;
		if y.entries == 0 {
			g.total -= 1;
		}
		Some((g, y))
	})();
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::terminate_yield_farm(who, GF, YF, POOL));
	if !went(&r, &want) {
		unchanged(&w);
		return;
	}
	let (g, y) = want.unwrap();
	check(YieldFarm::<Test>::contains_key((POOL, GF, YF)) == (y.entries > 0), "an empty farm goes");
	same_g(&g);
	if y.entries > 0 {
		same_y(&y);
	}
	money(&w, zero() - int(w.y.left), int(w.y.left), zero(), zero(), zero());
	backed(&w, &g, Some(&y));
}
fn global_world(live: u32, state: FarmState) -> World {
	let w = world_of(state, FarmState::Stopped);
	let mut g = w.g.clone();
	g.live = live;
	GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(g.clone()));
	Safe::insert(purse(), true);
	World { g, ..w }
}
fn terminate_global(state: FarmState) {
	let w = global_world(any("live_farms"), state);
	let who = caller();
	let mut total = w.g.total;
	if any::<bool>("all_gone") {
		assume(w.g.live == 0);
		total = 0;
		let mut g = w.g.clone();
		g.total = 0;
		GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(g));
	}
	let ok = who == OWNER && w.g.state.is_active() && w.g.live == 0;
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::terminate_global_farm(who, GF));
	check(r.is_ok() == ok, "the owner ends a farm whose yield farms are all ended");
	if !ok {
		let mut g = w.g.clone();
		g.total = total;
		same_g(&g);
		money(&w, zero(), zero(), zero(), zero(), zero());
		check(Safe::get(purse()), "the account of a farm stays");
		return;
	}
	check(r.unwrap() == (R, w.purse, OWNER), "the rewards given back are reported");
	check(GlobalFarm::<Test>::contains_key(GF) == (total > 0), "the farm goes with its last yield farm");
	if total > 0 {
		let mut g = w.g.clone();
		g.total = total;
		g.state = FarmState::Terminated;
		same_g(&g);
	}
	check(!Safe::contains_key(purse()), "the account of an ended farm may go");
	money(&w, zero(), zero() - int(w.purse), zero(), zero(), int(w.purse));
}
fn create(state: FarmState) {
	// a second yield farm for the pool, or the first
	let w = world_of(state, if any::<bool>("first_runs") { FarmState::Active } else { FarmState::Stopped });
	let who = caller();
	let m = fixed("multiplier");
	let curve = if any::<bool>("curved") { Some(LoyaltyCurve { initial_reward_percentage: fixed("initial"), scale_coef: any("scale") }) } else { None };
	let fits = any::<bool>("incentivized_in_pool");
	FarmSequencer::<Test>::put(8);
	let want = (|| {
		if m < min_mult() || who != OWNER || !w.g.state.is_active() || w.y.state.is_active() || !fits || w.g.total >= 20 {
			return None;
		}
		if let Some(c) = &curve {
			if stored(&c.initial_reward_percentage) >= 1_000_000_000_000_000_000 {
				return None;
			}
		}
		let (mut g, moved) = fresh(&w)?;
		g.live = g.live.checked_add(1)?;
		g.total += 1;
		Some((g, moved))
	})();
	let assets = if fits { vec![OTHER, INC] } else { vec![OTHER, R] };
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::create_yield_farm(who, GF, m, curve.clone(), POOL, assets));
	if !went(&r, &want) {
		unchanged(&w);
		check(FarmSequencer::<Test>::get() == 8, "a refused farm is not counted");
		return;
	}
	let (g, moved) = want.unwrap();
	check(r.unwrap() == 9 && FarmSequencer::<Test>::get() == 9, "farms are numbered");
	check(active() == Some(9), "the new farm is active");
	same_g(&g);
	same_y(&w.y);
	let n = recast::<YieldFarmData<Test>, Y>(YieldFarm::<Test>::get((POOL, GF, 9)).unwrap());
	check(n.id == 9 && n.updated_at == w.now && n.curve == curve && n.mult == m && n.state.is_active(), "the new farm is as ordered");
	check(n.shares == 0 && n.valued == 0 && n.entries == 0 && n.left == 0 && n.stopped == 0 && stored(&n.rpvs) == 0, "the new farm is empty");
	money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
	backed(&w, &g, Some(&w.y));
}

harness! {
	fn h_p11_claim() {
		claim(FarmState::Active, false, true)
	}
	fn h_p11_claim_stopped() {
		claim(FarmState::Stopped, true, true)
	}
	fn h_p11_claim_terminated() {
		claim(FarmState::Terminated, false, true)
	}
	fn h_p11_claim_flat() {
		claim(FarmState::Stopped, false, false)
	}
	fn h_p11_deposit() {
		deposit(FarmState::Active)
	}
	fn h_p11_deposit_stopped() {
		deposit(FarmState::Stopped)
	}
	fn h_p11_redeposit() {
		redeposit(FarmState::Active)
	}
	fn h_p11_withdraw() {
		withdraw(FarmState::Active, FarmState::Active, false, true)
	}
	fn h_p11_withdraw_late() {
		withdraw(FarmState::Active, FarmState::Active, false, false)
	}
	fn h_p11_withdraw_stopped() {
		withdraw(FarmState::Active, FarmState::Stopped, true, false)
	}
	fn h_p11_withdraw_terminated() {
		withdraw(FarmState::Active, FarmState::Terminated, any("two_entries"), false)
	}
	fn h_p11_withdraw_ended() {
		withdraw(FarmState::Terminated, FarmState::Terminated, any("two_entries"), false)
	}
	fn h_p11_multiplier() {
		multiplier(FarmState::Active)
	}
	fn h_p11_multiplier_stopped() {
		multiplier(FarmState::Stopped)
	}
	fn h_p11_stop() {
		stop(FarmState::Active)
	}
	fn h_p11_stop_stopped() {
		stop(FarmState::Stopped)
	}
	fn h_p11_resume() {
		resume(FarmState::Stopped)
	}
	fn h_p11_resume_active() {
		resume(FarmState::Active)
	}
	fn h_p11_resume_terminated() {
		resume(FarmState::Terminated)
	}
	fn h_p11_terminate() {
		terminate(FarmState::Stopped)
	}
	fn h_p11_terminate_active() {
		terminate(FarmState::Active)
	}
	fn h_p11_terminate_global() {
		terminate_global(FarmState::Active)
	}
	fn h_p11_terminate_global_again() {
		terminate_global(FarmState::Terminated)
	}
	fn h_p11_create_yield_farm() {
		create(FarmState::Active)
	}
	fn h_p11_create_in_ended() {
		create(FarmState::Terminated)
	}
	/// A farm is created for what its owner pays in full.
	fn h_p11_create_global_farm() {
		let owner: u128 = any("owner");
		let purse0: u128 = any("purse");
		let rewards: u128 = any("rewards");
		let (planned, bpp): (Block, Block) = (any("planned"), any("blocks_per_period"));
		let rate = any::<u64>("rate") % 1_000_000_000_000_000_001;
		let min: u128 = any("min_deposit");
		let price = fixed("price");
		let block: Block = any("block");
		BlockNumber::put(block);
		assume(int(owner) + int(purse0) <= max128());
		Free::insert(OWNER, R, owner);
		FarmSequencer::<Test>::put(GF - 1);
		Free::insert(purse(), R, purse0);
		let (least, shortest): (u128, Block) = (any("least"), any("shortest"));
		MinRewards::put(least);
		MinPeriods::put(shortest);
		Unknown::insert(R, any::<bool>("reward_unknown"));
		Unknown::insert(INC, any::<bool>("incentivized_unknown"));
		let ok = min >= 1000 && stored(&price) != 0 && rewards >= least && planned >= shortest && bpp != 0 && rate != 0 && !Unknown::get(R) && !Unknown::get(INC) && rewards <= owner && planned != 0;
		let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::create_global_farm(rewards, planned, bpp, INC, R, OWNER, Perquintill::from_parts(rate), min, price));
		check(r.is_ok() == ok, "a farm is created exactly on sound terms");
		if !ok {
			check(Free::get(OWNER, R) == owner && Free::get(purse(), R) == purse0, "a refused call moves nothing");
			check(FarmSequencer::<Test>::get() == GF - 1 && !GlobalFarm::<Test>::contains_key(GF), "a refused farm is not counted");
			return;
		}
		let (id, most) = r.unwrap();
		check(id == GF && FarmSequencer::<Test>::get() == GF, "farms are numbered");
		check(most == rewards / planned as u128, "the most a period gives is reported");
		let g = read_g();
		check(g.id == GF && g.owner == OWNER && g.currency == R && g.asset == INC && g.rate == Perquintill::from_parts(rate) && g.planned == planned && g.bpp == bpp && g.most == most && g.min_deposit == min && g.price == price && g.state.is_active(), "the farm is as ordered");
		check(g.updated_at == block / bpp && g.stake == 0 && g.pending == 0 && g.paid == 0 && stored(&g.rpz) == 0 && g.live == 0 && g.total == 0, "the farm is empty");
		check(int(Free::get(OWNER, R)) == int(owner) - int(rewards) && int(Free::get(purse(), R)) == int(purse0) + int(rewards), "all rewards are paid in at once");
		check(Safe::get(purse()), "the account of the farm is kept from dusting");
	}
	fn h_p11_price() {
		let w = global_world(1, if any::<bool>("runs") { FarmState::Active } else { FarmState::Terminated });
		NoOracle::put(any::<bool>("no_oracle"));
		Oracle::put(any::<u128>("oracle"));
		let who = caller();
		let p = fixed("new_price");
		let want = (|| {
			if stored(&p) == 0 || who != OWNER || !w.g.state.is_active() {
				return None;
			}
			let (mut g, moved) = fresh(&w)?;
			g.price = p;
			Some((g, moved))
		})();
		let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::update_global_farm_price_adjustment(who, GF, p));
		if !went(&r, &want) {
			unchanged(&w);
			return;
		}
		let (g, moved) = want.unwrap();
		same_g(&g);
		same_y(&w.y);
		money(&w, int(moved), zero() - int(moved), zero(), zero(), zero());
		backed(&w, &g, Some(&w.y));
	}
	/// A farm can be stopped after two deposits whose stakes add up to the stake of both ..
	fn h_p11_stops_after_deposits() {
		stops(false)
	}
	/// .. and also when they were rounded down to less than it.
	fn h_p11_stops_after_rounding() {
		stops(true)
	}
}
fn stops(rounded: bool) {
	let (a, b): (u128, u128) = (any("first"), any("second"));
	let m = fixed("multiplier");
	assume(a >= 1000 && b >= 1000 && m >= min_mult() && a < 1 << 100 && b < 1 << 100 && m < FixedU128::from_inner(1 << 64));
	let w = world(FarmState::Active);
	let mut y = w.y.clone();
	let mut g = w.g.clone();
	g.updated_at = w.now;
	y.updated_at = w.now;
	y.valued = 0;
	y.shares = 0;
	y.entries = 0;
	y.mult = m;
	g.stake = 0;
	g.min_deposit = 1000;
	GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(g));
	YieldFarm::<Test>::insert((POOL, GF, YF), recast::<Y, YieldFarmData<Test>>(y));
	let put = |x: u128| {
		Shares::put(x);
		Value::put(x);
		dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::deposit_lp_shares(GF, YF, POOL, x, value_of)).is_ok()
	};
	let less = int(stake(a, m).unwrap()) + int(stake(b, m).unwrap()) < int(stake(a + b, m).unwrap());
	assume(less == rounded);
	check(put(a) && put(b), "deposits are taken");
	let r = dispatch(|| <Lm as Mutate<AccountId, AssetId, Block>>::stop_yield_farm(OWNER, GF, POOL));
	check(r.is_ok(), "a farm can be stopped whatever was deposited");
}
