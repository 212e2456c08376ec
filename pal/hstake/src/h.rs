use frame_support::pallet_prelude::*;
use frame_support::rt::recast;
use frame_support::PalletId;
use hrt::*;
use hydra_dx_math::staking as math;
use orml_traits::GetByKey;
use pallet_democracy::traits::DemocracyHooks;
use pallet_democracy::{AccountVote, Conviction as DemocracyConviction, ReferendumIndex, Vote as DemocracyVote};
use pallet_staking::integrations::democracy::StakingDemocracy;
use pallet_staking::traits::{DemocracyReferendum, Freeze, PayablePercentage, VestingDetails};
use pallet_staking::types::{Action, Conviction, Position, StakingData, Vote, Voting};
use pallet_staking::{Config, NextPositionId, Pallet, PositionVotes, Positions, ProcessedVotes, Staking};
use sp_runtime::{FixedPointNumber, FixedU128, Perbill, Permill};
use symx::*;

hrt::runtime!(pallet_staking);
hrt::cells! {
	CMin Min: u128 = 100;
	CVested Vested: u128 = 101;
	CFrozen Frozen: bool = 102;
	CTimeW TimeW: u32 = 103;
	CActW ActW: u32 = 104;
	CTimeP TimeP: u8 = 105;
	CUncl Uncl: u128 = 106;
	CCurW CurW: u8 = 107;
	CMaxP MaxP: u32 = 108;
}
pub struct PFin;
impl frame_support::storage::StorageInstance for PFin {
	fn id() -> u64 {
		120
	}
}
pub type Finished = StorageMap<PFin, Identity, u32, bool, ValueQuery>;

/// The part of rewards to pay for points: any function of them.
#[inline(never)]
pub fn quote_payable(points: u128) -> Option<u128> {
	if let Some(r) = choice("quote_payable", points, 0, 0, 0) {
		return r;
	}
	if points % 7 == 5 {
		return None;
	}
	Some(if points > 1_000 { 1_000_000_000_000_000_000 } else { points * 1_000_000_000_000_000 })
}
/// The least points to slash for a part of the rewards: any function of it.
#[inline(never)]
pub fn quote_slash(part: u128) -> Option<u128> {
	if let Some(r) = choice("quote_slash", part, 0, 0, 0) {
		return r;
	}
	Some(part / 100_000_000_000_000_000)
}
pub struct Payable;
impl PayablePercentage<u128> for Payable {
	fn get(points: u128) -> Option<FixedU128> {
		quote_payable(points).map(|p| FixedU128::from_inner(p))
	}
}
pub struct Slash;
impl GetByKey<FixedU128, u128> for Slash {
	fn get(p: &FixedU128) -> u128 {
		quote_slash(p.into_inner()).unwrap_or(3)
	}
}
pub struct MostPoints;
impl GetByKey<Action, u32> for MostPoints {
	fn get(_: &Action) -> u32 {
		MaxP::get()
	}
}
pub struct Referenda;
impl DemocracyReferendum for Referenda {
	fn is_referendum_finished(i: ReferendumIndex) -> bool {
		Finished::get(i)
	}
}
pub struct Vests;
impl VestingDetails<AccountId, Balance> for Vests {
	fn locked(who: AccountId) -> Balance {
		if who == WHO {
			Vested::get()
		} else {
			0
		}
	}
}
pub struct Collections;
impl Freeze<AccountId, u128> for Collections {
	fn freeze_collection(owner: AccountId, c: u128) -> DispatchResult {
		if owner == pot() && c == COL {
			Frozen::put(true);
		}
		Ok(())
	}
}
hrt::gets! {
	Period: u32 = 100;
	Id: PalletId = PalletId(*b"staking#");
	Native: AssetId = HDX;
	MinStake: u128 = Min::get();
	TimeWeight: Permill = Permill::from_parts(TimeW::get());
	ActionWeight: Perbill = Perbill::from_parts(ActW::get());
	TimePoints: u8 = TimeP::get();
	Unclaimable: u128 = Uncl::get();
	CurrentWeight: u8 = CurW::get();
	Collection: u128 = COL;
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetId = AssetId;
	type Currency = Ledger;
	type PeriodLength = Period;
	type PalletId = Id;
	type NativeAssetId = Native;
	type MinStake = MinStake;
	type TimePointsWeight = TimeWeight;
	type ActionPointsWeight = ActionWeight;
	type TimePointsPerPeriod = TimePoints;
	type UnclaimablePeriods = Unclaimable;
	type CurrentStakeWeight = CurrentWeight;
	type MaxVotes = ConstU32<3>;
	type NFTCollectionId = Collection;
	type PayablePercentage = Payable;
	type BlockNumberProvider = Clock;
	type PositionItemId = u128;
	type CollectionId = u128;
	type Collections = Collections;
	type NFTHandler = Items;
	type MinSlash = Slash;
	type MaxPointsPerAction = MostPoints;
	type ReferendumInfo = Referenda;
	type Vesting = Vests;
	type WeightInfo = ();
}
const HDX: AssetId = 0;
const DAI: AssetId = 2;
const COL: u128 = 1;
const WHO: AccountId = 8;
const OTHER: AccountId = 9;
const POS: u128 = 4;
const THEIRS: u128 = 3;
type P = Pallet<Test>;
type Hooks = StakingDemocracy<Test>;

fn pot() -> AccountId {
	P::pot_account_id()
}
fn fixed(n: &'static str) -> FixedU128 {
	FixedU128::from_inner(any::<u128>(n))
}
/// A position as the pallet stores it.
#[derive(Clone, Encode, Decode)]
struct Pos {
	stake: u128,
	acts: u128,
	rps: FixedU128,
	created: Block,
	slashed: u128,
	unpaid: u128,
	locked: u128,
}
#[derive(Clone, Encode, Decode)]
struct Sum {
	total: u128,
	rps: FixedU128,
	reserved: u128,
}
#[derive(Clone, Encode, Decode)]
struct V {
	amount: u128,
	conviction: Conviction,
}
fn same(a: &Pos, b: &Pos) -> bool {
	a.stake == b.stake && a.acts == b.acts && a.rps == b.rps && a.created == b.created && a.slashed == b.slashed && a.unpaid == b.unpaid && a.locked == b.locked
}
fn same_sum(a: &Sum, b: &Sum) -> bool {
	a.total == b.total && a.rps == b.rps && a.reserved == b.reserved
}
fn position(i: u128) -> Option<Pos> {
	P::positions(i).map(|p| recast::<Position<Block>, Pos>(p))
}
fn sum() -> Sum {
	recast::<StakingData, Sum>(P::staking())
}
fn put_position(i: u128, p: &Pos) {
	Positions::<Test>::insert(i, recast::<Pos, Position<Block>>(p.clone()));
}
struct World {
	p: Pos,
	s: Sum,
	pot: u128,
	user: u128,
	now: Block,
	lock: u128,
}
fn constants() {
	Min::put(within::<u128>("min_stake", 1, 1 << 90));
	TimeW::put(within::<u32>("time_weight", 0, 1_000_000));
	ActW::put(within::<u32>("action_weight", 0, 1_000_000_000));
	TimeP::put(any::<u8>("time_points"));
	Uncl::put(any::<u128>("unclaimable"));
	CurW::put(within::<u8>("current_weight", 1, 255));
	MaxP::put(any::<u32>("max_points"));
	Vested::put(any::<u128>("vested"));
}
/// Staking is set up and has stakes and rewards; `with` when the user has a position.
fn world(with: bool) -> World {
	constants();
	let now: Block = any("block");
	BlockNumber::put(now);
	let p = Pos { stake: within("stake", 1, 1 << 90), acts: within("action_points", 0, 1 << 90), rps: fixed("rps"), created: any("created"), slashed: within("slashed", 0, 1 << 90), unpaid: within("unpaid", 0, 1 << 90), locked: within("locked", 0, 1 << 90) };
	assume(p.created <= now);
	let s = Sum { total: within("total_stake", 0, 1 << 100), rps: fixed("total_rps"), reserved: within("reserved", 0, 1 << 100) };
	let w = World { p, s, pot: within("pot", 0, 1 << 100), user: within("user", 0, 1 << 100), now, lock: any("lock") };
	assume(w.s.reserved <= w.pot);
	Free::insert(pot(), HDX, w.pot);
	Free::insert(WHO, HDX, w.user);
	Staking::<Test>::put(recast::<Sum, StakingData>(w.s.clone()));
	Owners::insert(COL, THEIRS, OTHER);
	put_position(THEIRS, &theirs());
	Locked::insert(OTHER, HDX, 77);
	NextPositionId::<Test>::put(POS + 1);
	if with {
		assume(w.p.stake <= w.s.total);
		Owners::insert(COL, POS, WHO);
		put_position(POS, &w.p);
		Locked::insert(WHO, HDX, w.lock);
	}
	w
}
fn theirs() -> Pos {
	Pos { stake: 1, acts: 2, rps: FixedU128::from_inner(3), created: 4, slashed: 5, unpaid: 6, locked: 7 }
}
fn others_stay() {
	check(position(THEIRS).map_or(false, |p| same(&p, &theirs())) && Locked::get(OTHER, HDX) == 77 && Owners::get(COL, THEIRS) == Some(OTHER), "the positions of others stay");
}
fn nothing_happened(w: &World, with: bool) {
	check(Free::get(pot(), HDX) == w.pot && Free::get(WHO, HDX) == w.user, "a refused call moves nothing");
	check(same_sum(&sum(), &w.s), "a refused call leaves the totals");
	check(position(POS).map_or(!with, |p| with && same(&p, &w.p)), "a refused call leaves the position");
	check(!with || Locked::get(WHO, HDX) == w.lock, "a refused call leaves the lock");
	check(Owners::get(COL, POS) == if with { Some(WHO) } else { None }, "a refused call leaves the item");
	others_stay();
}
/// The totals once what came into the pot is given to the stakers; `None` when that cannot be.
fn up_to_date(w: &World) -> Option<Sum> {
	let pending = w.pot - w.s.reserved;
	if w.s.total == 0 || pending == 0 {
		return Some(w.s.clone());
	}
	let rps = math::calculate_accumulated_rps(w.s.rps, pending, w.s.total)?;
	if rps == w.s.rps {
		return Some(w.s.clone());
	}
	Some(Sum { total: w.s.total, rps, reserved: w.pot })
}
fn period(b: Block) -> u128 {
	(b / 100) as u128
}
fn points(p: &Pos, now: Block) -> Option<u128> {
	math::calculate_points(period(p.created), period(now), TimeP::get(), Permill::from_parts(TimeW::get()), p.acts, Perbill::from_parts(ActW::get()), p.slashed)
}
/// What a position is paid and what it is still owed; the part of the rewards it is paid; whether rewards can be claimed.
struct Due {
	pay: u128,
	unpaid: u128,
	part: FixedU128,
	old: bool,
}
fn due(p: &Pos, s: &Sum, now: Block) -> Option<Due> {
	let new = math::calculate_rewards(s.rps, p.rps, p.stake)?;
	// what the pot reserved is for the positions
	assume(int(new) + int(p.unpaid) <= int(s.reserved));
	let old = int(period(now)) - int(period(p.created)) > int(Uncl::get());
	if !old {
		return Some(Due { pay: 0, unpaid: p.unpaid + new, part: FixedU128::from_inner(0), old });
	}
	let part = FixedU128::from_inner(quote_payable(points(p, now)?)?);
	let total = new + p.unpaid + p.locked;
	let share = math::calculate_percentage_amount(total, part);
	assume(share <= total);
	let pay = if share > p.locked { share - p.locked } else { 0 };
	Some(Due { pay, unpaid: amount(&(int(new) + int(p.unpaid) - int(pay))), part, old })
}
fn moved(w: &World, pay: u128) {
	check(int(Free::get(WHO, HDX)) == int(w.user) + int(pay), "the user receives what is paid");
	check(int(Free::get(pot(), HDX)) == int(w.pot) - int(pay), "the pot pays it");
	check(sum().reserved <= Free::get(pot(), HDX), "the pot has what it reserved");
}
fn stakeable(w: &World, staked: u128) -> Option<u128> {
	if Vested::get() > w.user {
		return None;
	}
	let left = w.user - Vested::get();
	Some(if left > staked { left - staked } else { 0 })
}
fn conviction(n: u8) -> Conviction {
	match n {
		0 => Conviction::None,
		1 => Conviction::Locked1x,
		2 => Conviction::Locked2x,
		3 => Conviction::Locked3x,
		4 => Conviction::Locked4x,
		5 => Conviction::Locked5x,
		_ => Conviction::Locked6x,
	}
}
fn democracy_conviction(n: u8) -> DemocracyConviction {
	match n {
		0 => DemocracyConviction::None,
		1 => DemocracyConviction::Locked1x,
		2 => DemocracyConviction::Locked2x,
		3 => DemocracyConviction::Locked3x,
		4 => DemocracyConviction::Locked4x,
		5 => DemocracyConviction::Locked5x,
		_ => DemocracyConviction::Locked6x,
	}
}
/// Points for a finished vote: its part of the most one can vote, of the most points.
fn earned(amount: u128, n: u8, stake: u128) -> u128 {
	let power = if n == 0 { amount / 10 } else { amount * n as u128 };
	let most = 6 * stake;
	power * MaxP::get() as u128 / most
}
fn votes(list: &[(u32, u128, u8)]) {
	let mut v = Voting::<ConstU32<3>>::default();
	let mut i = 0;
	while i < list.len() {
		let (r, a, c) = list[i];
		v.votes.try_push((r, Vote::new(a, conviction(c)))).unwrap();
		i += 1;
	}
	PositionVotes::<Test>::insert(POS, v);
}
fn has_votes(list: &[(u32, u128, u8)]) -> bool {
	let v = P::position_votes(POS).votes;
	if v.len() != list.len() {
		return false;
	}
	let mut i = 0;
	while i < list.len() {
		let (r, a, c) = list[i];
		let x = recast::<Vote, V>(v[i].1.clone());
		if v[i].0 != r || x.amount != a || x.conviction != conviction(c) {
			return false;
		}
		i += 1;
	}
	true
}
fn processed(r: u32) -> Option<(u128, Conviction)> {
	P::processed_votes(WHO, r).map(|v| {
		let x = recast::<Vote, V>(v);
		(x.amount, x.conviction)
	})
}
/// The increase of a stake: with the votes processed already, `p` is the position to increase.
fn increased(w: &World, p: &Pos, x: u128) -> bool {
	let left = stakeable(w, w.p.stake + w.p.locked);
	let want = if x >= Min::get() && left.map_or(false, |l| l >= x) {
		match up_to_date(w) {
			Some(s) => match due(p, &s, w.now) {
				Some(d) => {
					let q = Pos { unpaid: d.unpaid, rps: s.rps, locked: p.locked + d.pay, ..p.clone() };
					match points(&q, w.now) {
						Some(pts) => math::calculate_slashed_points(pts, p.stake, x, CurW::get(), Slash::get(&d.part)).and_then(|n| p.slashed.checked_add(n)).map(|n| (s, d, n)),
						None => None,
					}
				}
				None => None,
			},
			None => None,
		}
	} else {
		None
	};
	let ok = dispatch(|| P::increase_stake(Origin::signed(WHO), POS, x));
	check(ok.is_ok() == want.is_some(), "a stake is increased exactly from what is free, not vested and not staked");
	match want {
		Some((s, d, slashed)) => {
			moved(w, d.pay);
			check(same_sum(&sum(), &Sum { total: s.total + x, rps: s.rps, reserved: s.reserved - d.pay }), "the totals follow the increase");
			let q = Pos { stake: p.stake + x, acts: p.acts, rps: s.rps, created: p.created, slashed, unpaid: d.unpaid, locked: p.locked + d.pay };
			check(position(POS).map_or(false, |n| same(&n, &q)), "the position follows the increase, and its rewards are locked");
			check(int(Locked::get(WHO, HDX)) == int(q.stake) + int(q.locked), "stake and rewards are locked");
			others_stay();
		}
		None => nothing_happened(w, true),
	}
	ok.is_ok()
}
fn claimed(w: &World, p: &Pos) -> bool {
	let want = match up_to_date(w) {
		Some(s) => match due(p, &s, w.now) {
			Some(d) => match points(p, w.now) {
				Some(pts) => p.slashed.checked_add(pts).map(|n| (s, d, n)),
				None => None,
			},
			None => None,
		},
		None => None,
	};
	let ok = dispatch(|| P::claim(Origin::signed(WHO), POS));
	check(ok.is_ok() == want.is_some(), "rewards can be claimed");
	match want {
		Some((s, d, slashed)) => {
			moved(w, d.pay);
			let given_up = if d.old { d.unpaid } else { 0 };
			check(same_sum(&sum(), &Sum { total: s.total, rps: s.rps, reserved: s.reserved - d.pay - given_up }), "what is not paid goes back to all");
			let q = Pos { stake: p.stake, acts: p.acts, rps: s.rps, created: p.created, slashed, unpaid: d.unpaid - given_up, locked: 0 };
			check(position(POS).map_or(false, |n| same(&n, &q)), "all points are spent, and the locked rewards are free");
			check(Locked::get(WHO, HDX) == q.stake, "the stake stays locked");
			others_stay();
		}
		None => nothing_happened(w, true),
	}
	ok.is_ok()
}
/// A position with one vote of a finished referendum and one of another.
fn with_votes() -> (World, Pos, u128, u128) {
	let w = world(true);
	assume(w.p.stake <= 1 << 60 && w.p.acts <= 1 << 60);
	let (a, b) = (within::<u128>("vote_a", 0, 1 << 60), within::<u128>("vote_b", 0, 1 << 60));
	votes(&[(2, a, 3), (5, b, 0)]);
	Finished::insert(2, true);
	let p = Pos { acts: w.p.acts + earned(a, 3, w.p.stake), ..w.p.clone() };
	(w, p, a, b)
}
fn votes_counted(ok: bool, a: u128, b: u128) {
	if ok {
		check(has_votes(&[(5, b, 0)]) && processed(2) == Some((a, Conviction::Locked3x)) && processed(5).is_none(), "votes of finished referenda are counted, others kept");
	} else {
		check(has_votes(&[(2, a, 3), (5, b, 0)]) && processed(2).is_none() && processed(5).is_none(), "a refused call counts no vote");
	}
}
fn vote_of(n: u8, split: bool, x: u128) -> AccountVote<u128> {
	if split {
		AccountVote::Split { aye: x, nay: 0 }
	} else {
		AccountVote::Standard { vote: DemocracyVote { aye: true, conviction: democracy_conviction(n) }, balance: x }
	}
}
/// The most of a stake that counts for a vote.
fn votable(w: &World, p: &Pos, x: u128) -> u128 {
	let vested = Vested::get();
	let a = if w.user > vested { w.user - vested } else { 0 };
	let b = if a > p.locked { a - p.locked } else { 0 };
	let m = if b < p.stake { b } else { p.stake };
	if x < m {
		x
	} else {
		m
	}
}

harness! {
	fn h_p13_init() {
		let (x, root, again) = (any::<u128>("pot"), any::<bool>("authority"), any::<bool>("again"));
		Free::insert(pot(), HDX, x);
		let s = Sum { total: 5, rps: FixedU128::from_inner(6), reserved: 7 };
		if again {
			Staking::<Test>::put(recast::<Sum, StakingData>(s.clone()));
		}
		let ok = dispatch(|| P::initialize_staking(if root { Origin::root() } else { Origin::signed(WHO) })).is_ok();
		check(ok == both(both(root, !again), x > 0), "the authority sets staking up once, with a balance to keep the pot");
		if ok {
			check(same_sum(&sum(), &Sum { total: 0, rps: FixedU128::from_inner(0), reserved: x }), "what was there is not given out");
			check(Frozen::get(), "positions cannot be transferred");
		} else {
			check(Staking::<Test>::exists() == again && (!again || same_sum(&sum(), &s)), "a refused call sets nothing up");
		}
	}
	fn h_p13_stake() {
		let w = world(false);
		let x: u128 = any("amount");
		let want = if x >= Min::get() && stakeable(&w, 0).map_or(false, |l| l >= x) { up_to_date(&w) } else { None };
		let ok = dispatch(|| P::stake(Origin::signed(WHO), x));
		// the next position is numbered POS + 1
		check(ok.is_ok() == want.is_some(), "an account stakes exactly what is free and not vested");
		match want {
			Some(s) => {
				let q = Pos { stake: x, acts: 0, rps: s.rps, created: w.now, slashed: 0, unpaid: 0, locked: 0 };
				check(position(POS + 1).map_or(false, |n| same(&n, &q)) && Owners::get(COL, POS + 1) == Some(WHO), "the staker owns the position");
				check(Locked::get(WHO, HDX) == x, "the stake is locked");
				check(same_sum(&sum(), &Sum { total: s.total + x, ..s }), "the totals follow the stake");
				check(NextPositionId::<Test>::get() == POS + 2, "the next position has another number");
				moved(&w, 0);
				others_stay();
			}
			None => {
				nothing_happened(&w, false);
				check(NextPositionId::<Test>::get() == POS + 1 && position(POS + 1).is_none(), "a refused stake has no position");
			}
		}
	}
	fn h_p13_stake_twice() {
		let w = world(true);
		check(dispatch(|| P::stake(Origin::signed(WHO), any("amount"))).is_err(), "an account has one position");
		nothing_happened(&w, true);
	}
	fn h_p13_not_set_up() {
		let w = world(true);
		Staking::<Test>::kill();
		let x: u128 = any("amount");
		check(dispatch(|| P::stake(Origin::signed(11), x)).is_err() && dispatch(|| P::increase_stake(Origin::signed(WHO), POS, x)).is_err() && dispatch(|| P::claim(Origin::signed(WHO), POS)).is_err() && dispatch(|| P::unstake(Origin::signed(WHO), POS)).is_err(), "nothing is staked before staking is set up");
		Staking::<Test>::put(recast::<Sum, StakingData>(w.s.clone()));
		nothing_happened(&w, true);
	}
	fn h_p13_foreign() {
		let w = world(true);
		let x: u128 = any("amount");
		Free::insert(OTHER, HDX, any::<u128>("other"));
		check(dispatch(|| P::increase_stake(Origin::signed(OTHER), POS, x)).is_err(), "only the owner increases a stake");
		check(dispatch(|| P::claim(Origin::signed(OTHER), POS)).is_err(), "only the owner claims rewards");
		check(dispatch(|| P::unstake(Origin::signed(OTHER), POS)).is_err(), "only the owner ends a position");
		check(dispatch(|| P::unstake(Origin::signed(WHO), 5)).is_err() && dispatch(|| P::claim(Origin::signed(WHO), 5)).is_err() && dispatch(|| P::increase_stake(Origin::signed(WHO), 5, x)).is_err(), "there is a position to end");
		nothing_happened(&w, true);
	}
	fn h_p13_increase() {
		let w = world(true);
		let p = w.p.clone();
		increased(&w, &p, any("amount"));
	}
	fn h_p13_claim() {
		let w = world(true);
		let p = w.p.clone();
		claimed(&w, &p);
	}
	fn h_p13_unstake() {
		let w = world(true);
		let want = match up_to_date(&w) {
			Some(s) => match due(&w.p, &s, w.now) {
				Some(d) => points(&w.p, w.now).map(|_| (s, d)),
				None => None,
			},
			None => None,
		};
		let ok = dispatch(|| P::unstake(Origin::signed(WHO), POS));
		check(ok.is_ok() == want.is_some(), "a position without votes can be ended");
		match want {
			Some((s, d)) => {
				moved(&w, d.pay);
				check(same_sum(&sum(), &Sum { total: s.total - w.p.stake, rps: s.rps, reserved: s.reserved - d.pay - d.unpaid }), "what is not paid goes back to all");
				check(position(POS).is_none() && Owners::get(COL, POS).is_none(), "the position is gone");
				check(Locked::get(WHO, HDX) == 0, "nothing stays locked");
				others_stay();
			}
			None => nothing_happened(&w, true),
		}
	}
	fn h_p13_unstake_votes() {
		let w = world(true);
		let x: u128 = any("vote_a");
		let counted = any::<bool>("counted");
		if counted {
			ProcessedVotes::<Test>::insert(WHO, 2, Vote::new(x, Conviction::Locked1x));
		} else {
			votes(&[(2, x, 1)]);
		}
		check(dispatch(|| P::unstake(Origin::signed(WHO), POS)).is_err(), "a position with votes is not ended");
		nothing_happened(&w, true);
		if counted {
			check(dispatch(|| P::claim(Origin::signed(WHO), POS)).is_err() && dispatch(|| P::increase_stake(Origin::signed(WHO), POS, any("amount"))).is_err(), "counted votes are to be removed first");
			nothing_happened(&w, true);
			check(processed(2).is_some(), "the vote stays");
		} else {
			check(has_votes(&[(2, x, 1)]), "the vote stays");
		}
	}
	fn h_p13_claim_votes() {
		let (w, p, a, b) = with_votes();
		let ok = claimed(&w, &p);
		votes_counted(ok, a, b);
	}
	fn h_p13_increase_votes() {
		let (w, p, a, b) = with_votes();
		let ok = increased(&w, &p, any("amount"));
		votes_counted(ok, a, b);
	}
	fn h_p13_fee() {
		let w = world(false);
		let set_up = any::<bool>("set_up");
		if !set_up {
			Staking::<Test>::kill();
		}
		let native = any::<bool>("native");
		let a = if native { HDX } else { DAI };
		let x: u128 = any("amount");
		Free::insert(OTHER, HDX, any::<u128>("other"));
		assume(int(any::<u128>("other")) + int(w.pot) <= max128());
		Free::insert(OTHER, DAI, any::<u128>("other_dai"));
		Free::insert(pot(), DAI, 0);
		let r = dispatch(|| P::process_trade_fee(OTHER, a, x));
		if both(set_up, native) {
			check(r.is_ok() == (x <= any::<u128>("other")), "the native fee goes to the stakers");
			if let Ok(used) = r {
				check(used == x && int(Free::get(pot(), HDX)) == int(w.pot) + int(x) && int(Free::get(OTHER, HDX)) == int(any::<u128>("other")) - int(x), "all of it");
			}
		} else {
			check(r == Ok(0) && Free::get(pot(), HDX) == w.pot && Free::get(OTHER, HDX) == any::<u128>("other"), "no other fee does");
		}
		check(Free::get(OTHER, DAI) == any::<u128>("other_dai") && Free::get(pot(), DAI) == 0, "other assets stay");
		if set_up {
			check(same_sum(&sum(), &w.s), "a fee is given out later");
		}
	}
	fn h_p13_vote_new() {
		let w = world(true);
		let x: u128 = any("vote");
		let n = within::<u8>("conviction", 0, 6);
		let split = any::<bool>("split");
		assume(!split || n == 0);
		votes(&[(2, 11, 1), (9, 12, 2)]);
		check(dispatch(|| Hooks::on_vote(&WHO, 5, vote_of(n, split, x))).is_ok(), "a vote is taken");
		check(has_votes(&[(2, 11, 1), (5, votable(&w, &w.p, x), n), (9, 12, 2)]), "a vote counts with the stake the voter has, and its conviction");
		nothing_happened(&w, true);
	}
	fn h_p13_vote_again() {
		let w = world(true);
		let x: u128 = any("vote");
		votes(&[(2, 11, 1), (5, 12, 2), (9, 13, 3)]);
		check(dispatch(|| Hooks::on_vote(&WHO, 5, vote_of(4, false, x))).is_ok(), "a vote is changed");
		check(has_votes(&[(2, 11, 1), (5, votable(&w, &w.p, x), 4), (9, 13, 3)]), "a changed vote replaces the vote");
		check(dispatch(|| Hooks::on_vote(&WHO, 6, vote_of(4, false, x))).is_err(), "there are no more votes than allowed");
		check(has_votes(&[(2, 11, 1), (5, votable(&w, &w.p, x), 4), (9, 13, 3)]), "a refused vote is not counted");
		nothing_happened(&w, true);
	}
	fn h_p13_vote_counts() {
		let (w, p, a, b) = with_votes();
		let x: u128 = any("vote");
		check(dispatch(|| Hooks::on_vote(&WHO, 7, vote_of(1, false, x))).is_ok(), "a vote is taken");
		check(has_votes(&[(5, b, 0), (7, votable(&w, &p, x), 1)]) && processed(2) == Some((a, Conviction::Locked3x)), "votes of finished referenda are counted");
		check(position(POS).map_or(false, |q| same(&q, &p)), "they give points once");
		check(same_sum(&sum(), &w.s), "a vote changes no total");
	}
	fn h_p13_vote_none() {
		let w = world(false);
		check(dispatch(|| Hooks::on_vote(&WHO, 5, vote_of(1, false, any("vote")))).is_ok(), "one may vote without a stake");
		check(P::position_votes(POS).votes.is_empty() && P::position_votes(THEIRS).votes.is_empty(), "such a vote is not counted");
		Hooks::on_remove_vote(&WHO, 5, Some(true));
		check(Hooks::remove_vote_locks_if_needed(&WHO, 5).is_none(), "no vote is to be locked");
		nothing_happened(&w, false);
	}
	fn h_p13_unvote() {
		let w = world(true);
		assume(w.p.stake <= 1 << 60 && w.p.acts <= 1 << 60);
		let a = within::<u128>("vote_a", 0, 1 << 60);
		let n = within::<u8>("conviction", 0, 6);
		let (known, finished) = (any::<bool>("known"), any::<bool>("finished"));
		votes(&[(2, 11, 1), (5, a, n), (9, 12, 2)]);
		Hooks::on_remove_vote(&WHO, 5, if known { Some(finished) } else { None });
		check(has_votes(&[(2, 11, 1), (9, 12, 2)]) && processed(5).is_none(), "a removed vote is gone");
		let p = if both(known, finished) { Pos { acts: w.p.acts + earned(a, n, w.p.stake), ..w.p.clone() } } else { w.p.clone() };
		check(position(POS).map_or(false, |q| same(&q, &p)), "it gives points if its referendum is finished");
		check(same_sum(&sum(), &w.s), "a vote changes no total");
		Hooks::on_remove_vote(&WHO, 5, Some(true));
		check(has_votes(&[(2, 11, 1), (9, 12, 2)]) && position(POS).map_or(false, |q| same(&q, &p)), "it gives points once");
	}
	fn h_p13_unvote_counted() {
		let w = world(true);
		ProcessedVotes::<Test>::insert(WHO, 5, Vote::new(any("vote_a"), Conviction::Locked1x));
		ProcessedVotes::<Test>::insert(WHO, 6, Vote::new(1, Conviction::Locked1x));
		ProcessedVotes::<Test>::insert(OTHER, 5, Vote::new(2, Conviction::Locked1x));
		votes(&[(2, 11, 1)]);
		Hooks::on_remove_vote(&WHO, 5, Some(true));
		check(processed(5).is_none() && processed(6).is_some() && P::processed_votes(OTHER, 5).is_some(), "a counted vote is forgotten");
		check(has_votes(&[(2, 11, 1)]), "other votes stay");
		nothing_happened(&w, true);
	}
	fn h_p13_vote_lock() {
		let w = world(true);
		let a: u128 = any("vote_a");
		votes(&[(2, a, 1), (5, 12, 2)]);
		ProcessedVotes::<Test>::insert(WHO, 6, Vote::new(a, Conviction::Locked1x));
		ProcessedVotes::<Test>::insert(OTHER, 7, Vote::new(a, Conviction::Locked1x));
		check(Hooks::remove_vote_locks_if_needed(&WHO, 2) == Some(a), "a vote keeps what it counted with locked");
		check(Hooks::remove_vote_locks_if_needed(&WHO, 6) == Some(a), "so does a counted vote");
		check(Hooks::remove_vote_locks_if_needed(&WHO, 7).is_none() && Hooks::remove_vote_locks_if_needed(&WHO, 8).is_none(), "no other does");
		nothing_happened(&w, true);
	}
	/// A stake is never paid more over two claims than what was reserved for it.
	fn h_p13_claim_twice() {
		let w = world(true);
		if let Some(s) = up_to_date(&w) {
			let _ = due(&w.p, &s, w.now);
		}
		if dispatch(|| P::claim(Origin::signed(WHO), POS)).is_ok() {
			let (a, s) = (Free::get(WHO, HDX), sum());
			let p = position(POS).unwrap();
			check(p.rps == s.rps && p.unpaid <= s.reserved, "what is owed is reserved, and all rewards are accounted for");
			// no rewards since, and what came into the pot is given out: nothing more is paid than what is owed
			assume(math::calculate_rewards(s.rps, p.rps, p.stake) == Some(0));
			let d = due(&p, &s, w.now);
			if Free::get(pot(), HDX) == s.reserved && dispatch(|| P::claim(Origin::signed(WHO), POS)).is_ok() {
				check(int(Free::get(WHO, HDX)) <= int(a) + int(p.unpaid), "no more than what is owed is paid");
				check(d.map_or(false, |d| !d.old) || p.unpaid == 0, "nothing is owed once rewards can be claimed");
			}
		}
		others_stay();
	}
}
