use codec::{Decode, Encode};
use frame_support::pallet_prelude::*;
use frame_support::rt::recast;
use frame_support::PalletId;
use hrt::*;
use hydra_dx_math::liquidity_mining as math;
use hydradx_traits::liquidity_mining::PriceAdjustment;
use hydradx_traits::{AMMPosition, AMMTransfer, AMM};
use pallet_liquidity_mining::{ActiveYieldFarm, Deposit, DepositData, DepositSequencer, FarmSequencer, FarmState, GlobalFarm, GlobalFarmData, LoyaltyCurve, YieldFarm, YieldFarmData, YieldFarmEntry};
use pallet_xyk::types::AssetPair;
use sp_arithmetic::{FixedU128, Perquintill};
use sp_runtime::DispatchError;
use symx::*;

hrt::runtime!(pallet_liquidity_mining, pallet_xyk_liquidity_mining);
impl scale_info::TypeInfo for Test {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		unimplemented!()
	}
}
type Pool = AccountId;
const POOL: Pool = 40;
include!("../../farms.rs");

hrt::cells! {
	CGone Gone: bool = 120;
	CGone2 Gone2: bool = 121;
	CValA ValA: u128 = 122;
	CValB ValB: u128 = 123;
	CNoVal NoVal: bool = 124;
	CAsked Asked: (u32, u32, u128) = 125;
}
/// Two pools, each with its share token.
const POOL2: Pool = 41;
const LP: AssetId = 101;
const LP2: AssetId = 102;
const B1: AssetId = 13;
const B2: AssetId = 14;
const COL: u128 = 55;

pub struct Amm;
fn pool(p: AssetPair) -> Option<(Pool, AssetId)> {
	let (a, b) = p.ordered_pair();
	if a == INC && b == B1 && !Gone::get() {
		Some((POOL, LP))
	} else if a == INC && b == B2 && !Gone2::get() {
		Some((POOL2, LP2))
	} else {
		None
	}
}
type Transfer = AMMTransfer<AccountId, AssetId, AssetPair, Balance>;
impl AMM<AccountId, AssetId, AssetPair, Balance> for Amm {
	fn exists(p: AssetPair) -> bool {
		pool(p).is_some()
	}
	fn get_pair_id(p: AssetPair) -> AccountId {
		let (a, b) = p.ordered_pair();
		if a == INC && b == B1 {
			POOL
		} else if a == INC && b == B2 {
			POOL2
		} else {
			99
		}
	}
	fn get_share_token(p: AssetPair) -> AssetId {
		match pool(p) {
			Some((_, t)) => t,
			None => 0,
		}
	}
	fn get_pool_assets(p: &AccountId) -> Option<Vec<AssetId>> {
		if *p == POOL && !Gone::get() {
			Some(vec![INC, B1])
		} else if *p == POOL2 && !Gone2::get() {
			Some(vec![INC, B2])
		} else {
			None
		}
	}
	fn get_spot_price_unchecked(_: AssetId, _: AssetId, _: Balance) -> Balance {
		unreachable!()
	}
	fn validate_sell(_: &AccountId, _: AssetPair, _: Balance, _: Balance, _: bool) -> Result<Transfer, DispatchError> {
		unreachable!()
	}
	fn execute_sell(_: &Transfer) -> DispatchResult {
		unreachable!()
	}
	fn validate_buy(_: &AccountId, _: AssetPair, _: Balance, _: Balance, _: bool) -> Result<Transfer, DispatchError> {
		unreachable!()
	}
	fn execute_buy(_: &Transfer) -> DispatchResult {
		unreachable!()
	}
	fn get_min_trading_limit() -> Balance {
		0
	}
	fn get_min_pool_liquidity() -> Balance {
		0
	}
	fn get_max_in_ratio() -> u128 {
		0
	}
	fn get_max_out_ratio() -> u128 {
		0
	}
	fn get_fee(_: &AccountId) -> (u32, u32) {
		(0, 1)
	}
}
impl AMMPosition<AssetId, Balance> for Amm {
	type Error = DispatchError;
	fn get_liquidity_behind_shares(a: AssetId, b: AssetId, s: Balance) -> Result<(Balance, Balance), DispatchError> {
		Asked::put((a, b, s));
		if NoVal::get() {
			return Err(DispatchError::Other("no value"));
		}
		Ok((ValA::get(), ValB::get()))
	}
}
hrt::gets! {
	GXid: PalletId = PalletId(*b"xykLMpID");
	GCol: u128 = COL;
}
impl pallet_xyk_liquidity_mining::Config for Test {
	type RuntimeEvent = Ev;
	type Currencies = Ledger;
	type AMM = Amm;
	type CreateOrigin = frame_system::EnsureRoot<AccountId>;
	type PalletId = GXid;
	type NFTCollectionId = GCol;
	type NFTHandler = Items;
	type LiquidityMiningHandler = Lm;
	type NonDustableWhitelistHandler = Whitelist;
	type AssetRegistry = Registry;
	type WeightInfo = ();
}
type X = pallet_xyk_liquidity_mining::Pallet<Test>;

/// What is held of the shares of both pools by the pallet and the accounts.
struct Held {
	pot: u128,
	pot2: u128,
	user: u128,
	user2: u128,
	other: u128,
	other2: u128,
	nft: AccountId,
}
fn held() -> Held {
	let h = Held { pot: any("lp_pot"), pot2: any("lp2_pot"), user: any("lp_user"), user2: any("lp2_user"), other: any("lp_other"), other2: any("lp2_other"), nft: if any::<bool>("user_has_nft") { USER } else { OTHER } };
	assume(int(h.pot) + int(h.user) + int(h.other) <= max128());
	assume(int(h.pot2) + int(h.user2) + int(h.other2) <= max128());
	Free::insert(X::account_id(), LP, h.pot);
	Free::insert(X::account_id(), LP2, h.pot2);
	Free::insert(USER, LP, h.user);
	Free::insert(USER, LP2, h.user2);
	Free::insert(OTHER, LP, h.other);
	Free::insert(OTHER, LP2, h.other2);
	Gone::put(any::<bool>("gone"));
	Gone2::put(any::<bool>("gone2"));
	h
}
fn minted(h: &Held) {
	Owners::insert(COL, DEP, h.nft);
}
/// Shares of the first pool come from the pallet to the user and to the other account; nothing else moves.
fn moved(h: &Held, user: u128, other: u128) {
	check(int(Free::get(USER, LP)) == int(h.user) + int(user), "the user gets exactly those shares");
	check(int(Free::get(OTHER, LP)) == int(h.other) + int(other), "the other account gets exactly those shares");
	check(int(Free::get(X::account_id(), LP)) == int(h.pot) - int(user) - int(other), "the pallet keeps the shares of all other deposits");
	elsewhere(h);
}
fn elsewhere(h: &Held) {
	check(Free::get(USER, LP2) == h.user2 && Free::get(OTHER, LP2) == h.other2 && Free::get(X::account_id(), LP2) == h.pot2, "shares of other pools do not move");
}
fn still(h: &Held) {
	moved(h, 0, 0);
	check(nft() == Some(h.nft), "the deposit stays with its owner");
}
fn nft() -> Option<AccountId> {
	Owners::get(COL, DEP)
}
fn pair() -> (AssetPair, bool) {
	let own: bool = any("own_pair");
	let b = if own { B1 } else { B2 };
	let p = if any::<bool>("flipped") { AssetPair::new(b, INC) } else { AssetPair::new(INC, b) };
	(p, own)
}
fn who() -> AccountId {
	if any::<bool>("user_calls") {
		USER
	} else {
		OTHER
	}
}
fn farm(state: FarmState) -> World {
	let w = world(state);
	assume(w.ed == 0);
	w
}
/// The claim that a withdrawal makes, and what it takes out of the farms, are assumed to be in order (P11).
fn in_order(w: &World, e: &E, leave: bool) {
	let _ = (|| {
		let (mut g, mut y, mut f) = (w.g.clone(), w.y.clone(), e.clone());
		if !y.state.is_terminated() {
			let x = fresh(w)?;
			g = x.0;
			fresh_yield(&mut g, &mut y, w.now)?;
			let k = claimed(w, &mut y, &mut f)?;
			if leave {
				assume(k.lost <= g.paid);
			}
		}
		if leave && y.state.is_active() {
			let s = math::calculate_global_farm_shares(e.valued, y.mult).ok()?;
			assume(s <= g.stake);
		}
		Some(())
	})();
}
fn shares_of() -> u128 {
	recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).shares
}
fn entries_of() -> usize {
	recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap()).entries.len()
}
fn withdraw(state: FarmState, two: bool) {
	let ended = state.is_terminated();
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	minted(&h);
	let e = entry(&w, two);
	let shares = shares_of();
	// the pallet holds the shares of all deposits
	assume(int(shares) <= int(h.pot));
	in_order(&w, &e, true);
	let (p, own) = pair();
	let c = who();
	let mine = c == h.nft;
	let gone = Gone::get();
	let r = dispatch(|| X::withdraw_shares(Origin::signed(c), DEP, YF, p));
	if r.is_err() {
		still(&h);
		check(Deposit::<Test>::contains_key(DEP) && shares_of() == shares, "a refused call leaves the deposit");
		if ended {
			check(!(mine && own && !gone), "the owner can always take the shares out of an ended farm");
		}
		return;
	}
	check(mine, "only the owner of the deposit takes the shares out");
	check(own && !gone, "shares are those of the pool of the deposit");
	if two {
		still(&h);
		check(Deposit::<Test>::contains_key(DEP) && shares_of() == shares && entries_of() == 1, "a deposit that is in another farm stays");
		return;
	}
	if c == USER {
		moved(&h, shares, 0);
	} else {
		moved(&h, 0, shares);
	}
	check(nft().is_none(), "the deposit is gone");
	check(!Deposit::<Test>::contains_key(DEP), "the deposit is gone");
}
/// What a pool says the shares are worth in both its assets.
fn worth() {
	ValA::put(any::<u128>("worth_a"));
	ValB::put(any::<u128>("worth_b"));
	NoVal::put(any::<bool>("no_worth"));
	DepositSequencer::<Test>::put(DEP - 1);
}
fn deposit(state: FarmState) {
	let runs = state.is_active();
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	worth();
	let shares: u128 = any("shares");
	let (p, own) = pair();
	let c = who();
	let mine = if c == USER { h.user } else { h.other };
	let gone = Gone::get();
	let r = dispatch(|| X::deposit_shares(Origin::signed(c), GF, YF, p, shares));
	if r.is_err() {
		moved(&h, 0, 0);
		check(nft().is_none() && !Deposit::<Test>::contains_key(DEP), "a refused call makes no deposit");
		return;
	}
	check(runs, "an active farm only takes deposits");
	check(own && !gone, "the farm takes shares of its pool only");
	check(shares <= mine, "what is not held cannot be locked");
	elsewhere(&h);
	check(int(Free::get(X::account_id(), LP)) == int(h.pot) + int(shares), "the shares are locked");
	check(int(Free::get(c, LP)) == int(mine) - int(shares), "the shares come from the caller");
	let o = if c == USER { OTHER } else { USER };
	check(Free::get(o, LP) == if c == USER { h.other } else { h.user }, "nobody else's shares move");
	check(nft() == Some(c), "the caller owns the deposit");
	let d = recast::<DepositData<Test>, D>(Deposit::<Test>::get(DEP).unwrap());
	check(d.shares == shares && d.pool == POOL && d.entries.len() == 1, "the deposit is of those shares in that pool");
	check(Asked::get() == (INC, B1, shares) && !NoVal::get(), "the shares are valued by their pool");
	let e = read_e(DEP);
	check(e.valued == ValA::get() && e.global == GF && e.yfarm == YF, "the deposit counts with its worth in the incentivized asset");
}
fn redeposit(twin: bool) {
	let w = world(FarmState::Active);
	assume(w.g.updated_at == w.now);
	let h = held();
	minted(&h);
	worth();
	let shares: u128 = any("shares");
	let other_pool: bool = any("other_pool");
	let mut d = DepositData::<Test>::new(shares, if other_pool { POOL2 } else { POOL });
	let mut f = foreign();
	if twin {
		f.yfarm = YF;
	}
	let _ = d.add_yield_farm_entry(recast::<E, YieldFarmEntry<Test>>(f));
	Deposit::<Test>::insert(DEP, d);
	let (p, own) = pair();
	let c = who();
	let gone = Gone::get();
	let r = dispatch(|| X::redeposit_shares(Origin::signed(c), GF, YF, p, DEP));
	still(&h);
	check(shares_of() == shares, "the shares stay locked");
	if r.is_err() {
		check(entries_of() == 1, "a refused call adds no entry");
		return;
	}
	check(c == h.nft, "only the owner of the deposit puts it in another farm");
	check(own && !gone && !other_pool, "farm, pair and deposit are of one pool");
	check(!twin && entries_of() == 2, "a deposit enters a farm once");
	check(Asked::get() == (INC, B1, shares) && !NoVal::get(), "the shares are valued by their pool");
	check(read_e(DEP).valued == ValA::get(), "the entry counts with its worth in the incentivized asset");
}
fn claim(state: FarmState) {
	let w = world(state);
	assume(w.g.updated_at == w.now);
	let h = held();
	minted(&h);
	let e = entry(&w, false);
	in_order(&w, &e, false);
	let c = who();
	Free::insert(c, R, w.user);
	let r = dispatch(|| X::claim_rewards(Origin::signed(c), DEP, YF));
	still(&h);
	if r.is_err() {
		check(Free::get(c, R) == w.user && Free::get(pot(), R) == w.pot && read_e(DEP).claimed == e.claimed, "a refused claim changes nothing");
		return;
	}
	check(c == h.nft, "only the owner of the deposit claims");
	check(Free::get(c, R) > w.user, "a claim pays something, to the caller");
	check(read_e(DEP).claimed > e.claimed, "and is remembered");
}
/// The calls that manage farms: for the farm's owner, and pools that exist.
fn manage(which: u8, state: FarmState) {
	let mut w = world(state);
	if which == 4 {
		w.g.live = any("live");
		GlobalFarm::<Test>::insert(GF, recast::<G, GlobalFarmData<Test>>(w.g.clone()));
	}
	assume(w.g.updated_at == w.now);
	let h = held();
	let owner: bool = any("owner_calls");
	let c = if owner { OWNER } else { OTHER };
	let (p, own) = pair();
	let exists = if own { !Gone::get() } else { !Gone2::get() };
	let m = fixed("new_mult");
	in_order_stake(&w);
	let s = w.y.state.clone();
	let r = dispatch(|| match which {
		0 => X::update_yield_farm(Origin::signed(c), GF, p, m),
		1 => X::stop_yield_farm(Origin::signed(c), GF, p),
		2 => X::resume_yield_farm(Origin::signed(c), GF, YF, p, m),
		3 => X::terminate_yield_farm(Origin::signed(c), GF, YF, p),
		_ => X::terminate_global_farm(Origin::signed(c), GF),
	});
	moved(&h, 0, 0);
	if r.is_err() {
		let y = read_y();
		check(y.mult == w.y.mult && y.state == s && y.left == w.y.left, "a refused call leaves the farm");
		check(Free::get(pot(), R) == w.pot && Free::get(purse(), R) == w.purse, "and its money");
		return;
	}
	check(owner, "only its owner manages a farm");
	if which < 4 {
		check(own, "a farm is that of its pool");
	}
	if which == 0 || which == 2 {
		check(exists, "a farm runs for a pool that exists");
		check(read_y().mult == m && read_y().state == FarmState::Active, "with the new multiplier");
	}
	if which == 2 {
		check(s == FarmState::Stopped, "a stopped farm is resumed");
	}
	if which == 1 {
		check(s == FarmState::Active && read_y().state == FarmState::Stopped, "an active farm is stopped");
	}
	if which == 3 {
		check(s == FarmState::Stopped && (!YieldFarm::<Test>::contains_key((POOL, GF, YF)) || read_y().state == FarmState::Terminated), "a stopped farm is ended");
	}
	if which == 4 {
		check(w.g.live == 0, "a global farm ends without live yield farms");
	}
}
/// The stake of the yield farm is part of its global farm's (P11).
fn in_order_stake(w: &World) {
	if let Ok(s) = math::calculate_global_farm_shares(w.y.valued, w.y.mult) {
		assume(s <= w.g.stake);
	}
}
fn open_farm() {
	let w = world(FarmState::Active);
	let h = held();
	let root: bool = any("root_calls");
	let few: bool = any("insufficient");
	let known: bool = any("known");
	let ed: u128 = any("reward_ed");
	if few {
		Insufficient::insert(R, true);
	}
	if known {
		Deposits::insert(R, ed);
	} else {
		Deposits::remove(R);
	}
	FarmSequencer::<Test>::put(100u32);
	let total: u128 = any("rewards");
	let rate = Perquintill::from_parts(any::<u64>("rate") % 1_000_000_000_000_000_001);
	MinRewards::put(any::<u128>("least_rewards"));
	MinPeriods::put(any::<u32>("least_periods"));
	let o = if root { Origin::root() } else { Origin::signed(OWNER) };
	let planned: Block = any("planned");
	let min: u128 = any("min_deposit");
	let price = fixed("price");
	let bpp: Block = any("bpp");
	let r = dispatch(|| X::create_global_farm(o, total, planned, bpp, INC, R, OWNER, rate, min, price));
	moved(&h, 0, 0);
	if r.is_err() {
		check(Free::get(OWNER, R) == w.owner && Free::get(pot(), R) == w.pot, "a refused call costs nothing");
		check(FarmSequencer::<Test>::get() == 100 && GlobalFarm::<Test>::get(101u32).is_none(), "a refused call makes no farm");
		return;
	}
	check(root, "farms are created by the authority");
	let fee = if few { ed } else { 0 };
	if few {
		check(known, "the reward currency is known");
	}
	check(int(Free::get(OWNER, R)) == int(w.owner) - int(total) - int(fee), "the owner pays the rewards, and the deposit of the pot if it needs one");
	check(int(Free::get(pot(), R)) == int(w.pot) + int(fee), "the pot gets its deposit");
	check(int(Free::get(Lm::farm_account_id(101).unwrap(), R)) == int(total), "the farm gets the rewards");
	let g = recast::<GlobalFarmData<Test>, G>(GlobalFarm::<Test>::get(101u32).unwrap());
	check(g.owner == OWNER && g.currency == R && g.asset == INC && g.rate == rate && g.planned == planned && g.bpp == bpp && g.min_deposit == min && g.price == price, "on the terms of the call");
}
fn open_yield_farm() {
	let w = world_of(FarmState::Active, FarmState::Stopped);
	assume(w.g.updated_at == w.now);
	let h = held();
	FarmSequencer::<Test>::put(100u32);
	let owner: bool = any("owner_calls");
	let c = if owner { OWNER } else { OTHER };
	let (p, own) = pair();
	let exists = if own { !Gone::get() } else { !Gone2::get() };
	let m = fixed("new_mult");
	let r = dispatch(|| X::create_yield_farm(Origin::signed(c), GF, p, m, None));
	moved(&h, 0, 0);
	let id = if own { POOL } else { POOL2 };
	if r.is_err() {
		check(ActiveYieldFarm::<Test>::get(id, GF).is_none(), "a refused call makes no farm");
		return;
	}
	check(owner, "only its owner adds farms");
	check(exists, "a farm is for a pool that exists");
	check(ActiveYieldFarm::<Test>::get(id, GF) == Some(101), "the farm is that of the pool");
	let y = recast::<YieldFarmData<Test>, Y>(YieldFarm::<Test>::get((id, GF, 101u32)).unwrap());
	check(y.mult == m && y.curve.is_none() && y.valued == 0, "on the terms of the call");
}

harness! {
	fn h_p22_withdraw_ended() {
		withdraw(FarmState::Terminated, false);
	}
	fn h_p22_withdraw_ended_two() {
		withdraw(FarmState::Terminated, true);
	}
	fn h_p22_withdraw_stopped() {
		withdraw(FarmState::Stopped, false);
	}
	fn h_p22_withdraw() {
		withdraw(FarmState::Active, false);
	}
	fn h_p22_deposit() {
		deposit(FarmState::Active);
	}
	fn h_p22_deposit_stopped() {
		deposit(FarmState::Stopped);
	}
	fn h_p22_redeposit() {
		redeposit(false);
	}
	fn h_p22_redeposit_again() {
		redeposit(true);
	}
	fn h_p22_claim() {
		claim(FarmState::Active);
	}
	fn h_p22_claim_ended() {
		claim(FarmState::Terminated);
	}
	fn h_p22_update() {
		manage(0, FarmState::Active);
	}
	fn h_p22_stop() {
		manage(1, FarmState::Active);
	}
	fn h_p22_resume() {
		manage(2, FarmState::Stopped);
	}
	fn h_p22_end() {
		manage(3, FarmState::Stopped);
	}
	fn h_p22_end_active() {
		manage(3, FarmState::Active);
	}
	fn h_p22_end_global() {
		manage(4, FarmState::Stopped);
	}
	fn h_p22_open() {
		open_farm();
	}
	fn h_p22_open_yield() {
		open_yield_farm();
	}
}
