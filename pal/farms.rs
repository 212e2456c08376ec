// The farms of P22 and P23: the real liquidity mining pallet below the pallets that lock shares in it.
// Included by harness crates that define Pool, POOL (the pool of the yield farm), runtime! and the imports.
hrt::cells! {
	CMinRewards MinRewards: u128 = 102;
	CMinPeriods MinPeriods: u32 = 103;
	COracle Oracle: u128 = 104;
	CNoOracle NoOracle: bool = 105;
	CValue Value: u128 = 106;
	CNoValue NoValue: bool = 107;
	CShares Shares: u128 = 108;
}
pub struct PDust;
impl frame_support::storage::StorageInstance for PDust {
	fn id() -> u64 {
		150
	}
}
/// Accounts kept from the dusting.
pub type Safe = StorageMap<PDust, Identity, AccountId, bool, ValueQuery>;
pub struct Whitelist;
impl hydradx_traits::pools::DustRemovalAccountWhitelist<AccountId> for Whitelist {
	type Error = DispatchError;
	fn add_account(a: &AccountId) -> DispatchResult {
		Safe::insert(a, true);
		Ok(())
	}
	fn remove_account(a: &AccountId) -> DispatchResult {
		Safe::remove(a);
		Ok(())
	}
}
pub struct Prices;
impl PriceAdjustment<GlobalFarmData<Test>> for Prices {
	type Error = DispatchError;
	type PriceAdjustment = FixedU128;
	fn get(_: &GlobalFarmData<Test>) -> Result<FixedU128, DispatchError> {
		if NoOracle::get() {
			return Err(DispatchError::Other("oracle"));
		}
		Ok(FixedU128::from_inner(Oracle::get()))
	}
}
hrt::gets! {
	GPid: PalletId = PalletId(*b"liq/mine");
	GTreasury: AccountId = TREASURY;
	GMinRewards: Balance = MinRewards::get();
	GMinPeriods: Block = MinPeriods::get();
	GFarms: u32 = 20;
}
impl pallet_liquidity_mining::Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type MultiCurrency = Ledger;
	type PalletId = GPid;
	type TreasuryAccountId = GTreasury;
	type MinTotalFarmRewards = GMinRewards;
	type MinPlannedYieldingPeriods = GMinPeriods;
	type BlockNumberProvider = hrt::Clock;
	type AmmPoolId = Pool;
	type MaxFarmEntriesPerDeposit = ConstU32<2>;
	type MaxYieldFarmsPerGlobalFarm = GFarms;
	type AssetRegistry = Registry;
	type NonDustableWhitelistHandler = Whitelist;
	type PriceAdjustment = Prices;
}
type Lm = pallet_liquidity_mining::Pallet<Test>;

const R: AssetId = 10;
const INC: AssetId = 11;
const OWNER: AccountId = 7;
const USER: AccountId = 8;
const TREASURY: AccountId = 9;
const OTHER: AccountId = 6;
const GF: u32 = 3;
const YF: u32 = 5;
const DEP: u128 = 21;

/// The farms as the pallet stores them.
#[derive(Clone, Encode, Decode)]
struct G {
	id: u32,
	owner: AccountId,
	updated_at: Block,
	stake: u128,
	rpz: FixedU128,
	currency: AssetId,
	pending: u128,
	paid: u128,
	rate: Perquintill,
	planned: Block,
	bpp: Block,
	asset: AssetId,
	most: u128,
	min_deposit: u128,
	live: u32,
	total: u32,
	price: FixedU128,
	state: FarmState,
}
#[derive(Clone, Encode, Decode)]
struct Y {
	id: u32,
	updated_at: Block,
	shares: u128,
	valued: u128,
	rpvs: FixedU128,
	rpz: FixedU128,
	curve: Option<LoyaltyCurve>,
	mult: FixedU128,
	state: FarmState,
	entries: u64,
	left: u128,
	stopped: Block,
}
#[derive(Clone, Encode, Decode)]
struct E {
	global: u32,
	yfarm: u32,
	valued: u128,
	rpvs: FixedU128,
	claimed: u128,
	entered: Block,
	updated: Block,
	stopped: Block,
}
fn stored(a: &FixedU128) -> u128 {
	a.into_inner()
}
fn fixed(n: &'static str) -> FixedU128 {
	FixedU128::from_inner(any::<u128>(n))
}
fn read_g() -> G {
	recast::<GlobalFarmData<Test>, G>(GlobalFarm::<Test>::get(GF).unwrap())
}
fn read_y() -> Y {
	recast::<YieldFarmData<Test>, Y>(YieldFarm::<Test>::get((POOL, GF, YF)).unwrap())
}
/// A deposit as the pallet stores it.
#[derive(Encode, Decode)]
struct D {
	shares: u128,
	pool: Pool,
	entries: BoundedVec<YieldFarmEntry<Test>, ConstU32<2>>,
}
fn read_e(id: u128) -> E {
	let mut d = Deposit::<Test>::get(id).unwrap();
	recast::<YieldFarmEntry<Test>, E>(d.get_yield_farm_entry(YF).unwrap().clone())
}
fn pot() -> AccountId {
	Lm::pot_account_id().unwrap()
}
fn purse() -> AccountId {
	Lm::farm_account_id(GF).unwrap_or(0)
}

/// One global farm with one yield farm; the pot also holds what it owes for other farms.
struct World {
	g: G,
	y: Y,
	pot: u128,
	purse: u128,
	user: u128,
	treasury: u128,
	owner: u128,
	ed: u128,
	now: Block,
}
fn world(state: FarmState) -> World {
	world_of(FarmState::Active, state)
}
fn world_of(g_state: FarmState, state: FarmState) -> World {
	let bpp: Block = any("blocks_per_period");
	let block: Block = any("block");
	assume(bpp > 0);
	BlockNumber::put(block);
	let now = block / bpp;
	let g = G {
		id: GF,
		owner: OWNER,
		updated_at: any("g_updated"),
		stake: any("g_stake"),
		rpz: fixed("g_rpz"),
		currency: R,
		pending: any("g_pending"),
		paid: any("g_paid"),
		rate: Perquintill::from_parts(any::<u64>("g_rate") % 1_000_000_000_000_000_001),
		planned: any("g_planned"),
		bpp,
		asset: INC,
		most: any("g_most"),
		min_deposit: any("g_min_deposit"),
		live: any("g_live"),
		total: any("g_total"),
		price: fixed("g_price"),
		state: g_state,
	};
	let y = Y {
		id: YF,
		updated_at: any("y_updated"),
		shares: any("y_shares"),
		valued: any("y_valued"),
		rpvs: fixed("y_rpvs"),
		rpz: fixed("y_rpz"),
		curve: Some(LoyaltyCurve { initial_reward_percentage: fixed("y_curve"), scale_coef: any("y_scale") }),
		mult: fixed("y_mult"),
		state,
		entries: any("y_entries"),
		left: any("y_left"),
		stopped: any("y_stopped"),
	};
	assume(g.updated_at <= now && y.updated_at <= g.updated_at);
	assume(g.live >= 1 && g.total >= g.live);
	let w = World { g, y, pot: any("pot"), purse: any("purse"), user: any("user"), treasury: any("treasury"), owner: any("owner"), ed: any("ed"), now };
	// nothing is left in an ended farm
	assume(!w.y.state.is_terminated() || w.y.left == 0);
	// The pot holds what the farm has to give, and what other farms have.
	assume(int(w.pot) >= int(w.g.pending) + int(w.y.left));
	assume(int(w.pot) + int(w.purse) + int(w.user) + int(w.treasury) + int(w.owner) <= max128());
	GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(w.g.clone()));
	YieldFarm::<Test>::insert((POOL, GF, YF), recast::<Y, YieldFarmData<Test>>(w.y.clone()));
	if w.y.state.is_active() {
		ActiveYieldFarm::<Test>::insert(POOL, GF, YF);
	}
	for_money(&w);
	Deposits::insert(R, w.ed);
	NoOracle::put(true);
	w
}
fn for_money(w: &World) {
	Free::insert(pot(), R, w.pot);
	Free::insert(purse(), R, w.purse);
	Free::insert(USER, R, w.user);
	Free::insert(TREASURY, R, w.treasury);
	Free::insert(OWNER, R, w.owner);
}
/// Twenty-one: a deposit with an entry of the yield farm and, maybe, one of another farm.
fn entry(w: &World, two: bool) -> E {
	let e = E { global: GF, yfarm: YF, valued: any("e_valued"), rpvs: fixed("e_rpvs"), claimed: any("e_claimed"), entered: any("e_entered"), updated: any("e_updated"), stopped: any("e_stopped") };
	let shares: u128 = any("e_shares");
	let mut d = DepositData::<Test>::new(shares, POOL);
	if two {
		let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(foreign()));
	}
	let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(e.clone()));
	Deposit::<Test>::insert(DEP, d);
	// the entry is one of those counted, and no older than the farm's stops
	assume(e.valued <= w.y.valued && shares <= w.y.shares && w.y.entries >= 1);
	assume(e.stopped <= w.y.stopped && int(e.entered) + int(w.y.stopped) - int(e.stopped) <= int(w.y.updated_at));
	e
}
fn foreign() -> E {
	E { global: 30, yfarm: 50, valued: 5, rpvs: FixedU128::from_inner(0), claimed: 0, entered: 0, updated: 0, stopped: 0 }
}
/// What bringing the global farm up to date does: the rewards of the periods since, at most what is left,
/// go to the pot. None: the call is refused.
fn fresh(w: &World) -> Option<(G, u128)> {
	let mut g = w.g.clone();
	let mut moved = 0;
	if g.state.is_active() && g.updated_at != w.now {
		if g.stake != 0 {
			if !NoOracle::get() {
				g.price = FixedU128::from_inner(Oracle::get());
			}
			let due = math::calculate_global_farm_rewards(g.stake, g.price, g.rate.into(), g.most, (w.now - g.updated_at) as u128).ok()?;
			moved = due.min(w.purse.saturating_sub(w.ed));
			if moved != 0 {
				g.rpz = math::calculate_accumulated_rps(g.rpz, g.stake, moved).ok()?;
				g.pending = g.pending.checked_add(moved)?;
			}
		}
		g.updated_at = w.now;
	}
	Some((g, moved))
}
/// And the yield farm: it is given its part of the pending rewards.
fn fresh_yield(g: &mut G, y: &mut Y, now: Block) -> Option<()> {
	if !y.state.is_active() || y.updated_at == now {
		return Some(());
	}
	if y.valued != 0 {
		let (rpvs, got) = math::calculate_yield_farm_rewards(y.rpz, g.rpz, y.mult, y.valued).ok()?;
		g.paid = g.paid.checked_add(got)?;
		g.pending = g.pending.checked_sub(got)?;
		y.rpvs = FixedU128::from_inner(stored(&y.rpvs).checked_add(stored(&rpvs))?);
		y.left = y.left.checked_add(got)?;
	}
	y.rpz = g.rpz;
	y.updated_at = now;
	Some(())
}
/// What a claim does besides: pays the entry its rewards (sums too small for a new account go to the treasury).
struct Claim {
	pay: u128,
	lost: u128,
	small: bool,
}
fn claimed(w: &World, y: &mut Y, e: &mut E) -> Option<Claim> {
	let l = match y.curve.clone() {
		Some(c) => math::calculate_loyalty_multiplier(y.updated_at - e.entered - (y.stopped - e.stopped), c.initial_reward_percentage, c.scale_coef).ok()?,
		None => FixedU128::from_inner(1_000_000_000_000_000_000),
	};
	// the multiplier is at most one and the rewards of an entry are part of its farm's: M50 to M52
	assume(stored(&l) <= 1_000_000_000_000_000_000);
	let (pay, lost) = math::calculate_user_reward(e.rpvs, e.valued, e.claimed, y.rpvs, l).ok()?;
	assume(int(pay) + int(lost) <= int(y.left));
	y.left -= pay;
	if pay != 0 {
		e.claimed = e.claimed.checked_add(pay)?;
		e.updated = w.now;
	}
	Some(Claim { pay, lost, small: pay < w.ed && w.user < w.ed })
}
