use frame_support::pallet_prelude::*;
use frame_support::weights::Weight;
use hrt::*;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::*;
use hydradx_traits::pools::DustRemovalAccountWhitelist;
use hydradx_traits::AccountIdFor;
use pallet_stableswap::types::{AssetAmount, PoolInfo, PoolState, StableswapHooks, Tradability};
use pallet_stableswap::{AssetTradability, Config, Pallet, Pools};
use sp_runtime::{Permill, TransactionOutcome};
use std::num::NonZeroU16;
use std::ops::RangeInclusive;
use symx::*;

hrt::runtime!(pallet_stableswap);
hrt::cells! {
	CMin MinTrade: u128 = 102;
	CLiq MinLiq: u128 = 103;
	CLo AmpLo: u16 = 104;
	CHi AmpHi: u16 = 105;
	CKind Kind: u32 = 106;
	CIss Issuances: (u128, u128) = 107;
	CWay Way: (AssetId, AssetId) = 108;
	CVeto Veto: bool = 109;
}
pub struct PTold;
impl frame_support::storage::StorageInstance for PTold {
	fn id() -> u64 {
		150
	}
}
/// What the hooks were told of an asset: before, after, difference, price.
pub type Told = StorageMap<PTold, Identity, AssetId, (u128, u128, u128, (u128, u128)), OptionQuery>;
pub struct PKept;
impl frame_support::storage::StorageInstance for PKept {
	fn id() -> u64 {
		151
	}
}
/// Accounts dusting leaves alone.
pub type Kept = StorageMap<PKept, Identity, AccountId, bool, ValueQuery>;
hrt::gets! {
	GMin: u128 = MinTrade::get();
	GLiq: u128 = MinLiq::get();
	GAmp: RangeInclusive<NonZeroU16> = RangeInclusive::new(NonZeroU16::new(AmpLo::get()).unwrap(), NonZeroU16::new(AmpHi::get()).unwrap());
}
pub struct Accounts;
impl AccountIdFor<AssetId> for Accounts {
	type AccountId = AccountId;
	fn from_assets(a: &AssetId, i: Option<&[u8]>) -> AccountId {
		check(i == Some(b"sts"), "pool accounts are those of this pallet");
		1000 + *a as u64
	}
	fn name(_: &AssetId, _: Option<&[u8]>) -> Vec<u8> {
		Vec::new()
	}
}
pub struct Dusting;
impl DustRemovalAccountWhitelist<AccountId> for Dusting {
	type Error = DispatchError;
	fn add_account(a: &AccountId) -> Result<(), DispatchError> {
		Kept::insert(*a, true);
		Ok(())
	}
	fn remove_account(a: &AccountId) -> Result<(), DispatchError> {
		Kept::insert(*a, false);
		Ok(())
	}
}
fn tell(kind: u32, s: PoolState<AssetId>) {
	Kind::put(Kind::get() + kind);
	Issuances::put((s.issuance_before, s.issuance_after));
	let n = s.assets.len();
	check(s.before.len() == n && s.after.len() == n && s.delta.len() == n && s.share_prices.len() == n, "the hooks learn of all assets");
	let mut i = 0;
	while i < n {
		Told::insert(s.assets[i], (s.before[i], s.after[i], s.delta[i], s.share_prices[i]));
		i += 1;
	}
}
fn verdict() -> DispatchResult {
	if Veto::get() {
		Err(DispatchError::Other("hook"))
	} else {
		Ok(())
	}
}
pub struct Watch;
impl StableswapHooks<AssetId> for Watch {
	fn on_liquidity_changed(pool: AssetId, s: PoolState<AssetId>) -> DispatchResult {
		check(pool == SHARE, "the hooks learn of the pool");
		tell(1, s);
		verdict()
	}
	fn on_trade(pool: AssetId, i: AssetId, o: AssetId, s: PoolState<AssetId>) -> DispatchResult {
		check(pool == SHARE, "the hooks learn of the pool");
		Way::put((i, o));
		tell(100, s);
		verdict()
	}
	fn on_liquidity_changed_weight(_: usize) -> Weight {
		Weight::zero()
	}
	fn on_trade_weight(_: usize) -> Weight {
		Weight::zero()
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type BlockNumberProvider = Clock;
	type AssetId = AssetId;
	type Currency = Ledger;
	type ShareAccountId = Accounts;
	type AssetInspection = Registry;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type DustAccountHandler = Dusting;
	type Hooks = Watch;
	type MinPoolLiquidity = GLiq;
	type MinTradingLimit = GMin;
	type AmplificationRange = GAmp;
	type WeightInfo = ();
}

const D: u8 = MAX_D_ITERATIONS;
const Y: u8 = MAX_Y_ITERATIONS;
const A: AssetId = 10;
const B: AssetId = 11;
const C: AssetId = 12;
const OTHER: AssetId = 13;
const SHARE: AssetId = 20;
const WHO: AccountId = 7;
const POOL: AccountId = 1020;
const IDS: [AssetId; 3] = [A, B, C];

struct World {
	n: usize,
	reserves: Vec<u128>,
	mine: Vec<u128>,
	decimals: Vec<u8>,
	flags: Vec<u8>,
	issuance: u128,
	shares: u128,
	amps: (u16, u16),
	blocks: (u32, u32),
	now: u32,
	fee: u32,
	other: u128,
}
fn flags(n: &'static str) -> u8 {
	let v = any::<u8>(n);
	assume(v < 16);
	v
}
/// A pool of the first `n` of three assets.
fn world(n: usize) -> World {
	let mut w = World {
		n,
		reserves: vec![any("reserve_a"), any("reserve_b")],
		mine: vec![any("user_a"), any("user_b")],
		decimals: vec![any("decimals_a"), any("decimals_b")],
		flags: vec![flags("flags_a"), flags("flags_b")],
		issuance: any("issuance"),
		shares: any("user_shares"),
		amps: (any("amp"), any("final_amp")),
		blocks: (any("start"), any("end")),
		now: any("now"),
		fee: within("fee", 0u32, 1000000),
		other: any("user_other"),
	};
	if n == 3 {
		w.reserves.push(any("reserve_c"));
		w.mine.push(any("user_c"));
		w.decimals.push(any("decimals_c"));
		w.flags.push(flags("flags_c"));
	}
	assume(w.amps.0 > 0 && w.amps.1 > 0);
	assume(w.shares <= w.issuance);
	let mut i = 0;
	while i < n {
		assume(int(w.reserves[i]) + int(w.mine[i]) <= max128());
		Free::insert(POOL, IDS[i], w.reserves[i]);
		Free::insert(WHO, IDS[i], w.mine[i]);
		Decimals::insert(IDS[i], w.decimals[i]);
		AssetTradability::<Test>::insert(SHARE, IDS[i], Tradability::from_bits_truncate(w.flags[i]));
		i += 1;
	}
	Free::insert(WHO, SHARE, w.shares);
	Free::insert(WHO, OTHER, w.other);
	Decimals::insert(OTHER, 12);
	Issuance::insert(SHARE, w.issuance);
	let assets: Vec<AssetId> = if n == 3 { vec![A, B, C] } else { vec![A, B] };
	Pools::<Test>::insert(SHARE, pool(&w, assets));
	BlockNumber::put(w.now);
	MinTrade::put(any::<u128>("min_trade"));
	MinLiq::put(any::<u128>("min_liquidity"));
	Veto::put(any::<bool>("hook_fails"));
	w
}
fn pool(w: &World, assets: Vec<AssetId>) -> PoolInfo<AssetId, u32> {
	PoolInfo {
		assets: assets.try_into().unwrap(),
		initial_amplification: NonZeroU16::new(w.amps.0).unwrap(),
		final_amplification: NonZeroU16::new(w.amps.1).unwrap(),
		initial_block: w.blocks.0,
		final_block: w.blocks.1,
		fee: Permill::from_parts(w.fee),
	}
}
fn same_pool(w: &World) -> bool {
	match Pools::<Test>::get(SHARE) {
		Some(p) => p.assets.len() == w.n && p.assets[0] == A && p.assets[1] == B && p.initial_amplification.get() == w.amps.0 && p.final_amplification.get() == w.amps.1 && p.initial_block == w.blocks.0 && p.final_block == w.blocks.1 && p.fee == Permill::from_parts(w.fee),
		None => false,
	}
}
fn amp(w: &World) -> u128 {
	calculate_amplification(w.amps.0 as u128, w.amps.1 as u128, w.blocks.0 as u128, w.blocks.1 as u128, w.now as u128)
}
fn fee(w: &World) -> Permill {
	Permill::from_parts(w.fee)
}
fn state(amounts: &Vec<u128>, w: &World) -> Vec<AssetReserve> {
	let mut v = Vec::new();
	let mut i = 0;
	while i < w.n {
		v.push(AssetReserve::new(amounts[i], w.decimals[i]));
		i += 1;
	}
	v
}
/// The pool, its assets and the shares are as before but for what the account paid (`dx`) and got.
fn moved(w: &World, dx: &Vec<Int>, dshares: Int) {
	let mut i = 0;
	while i < w.n {
		check(int(Free::get(POOL, IDS[i])) == int(w.reserves[i]) + dx[i].clone(), "the pool receives and pays the amounts");
		check(int(Free::get(WHO, IDS[i])) == int(w.mine[i]) - dx[i].clone(), "the account pays and receives the amounts");
		check(AssetTradability::<Test>::get(SHARE, IDS[i]).bits() == w.flags[i], "tradability stays");
		i += 1;
	}
	check(int(Free::get(WHO, SHARE)) == int(w.shares) + dshares.clone(), "the account's shares change by the shares minted or burnt");
	check(int(Issuance::get(SHARE)) == int(w.issuance) + dshares, "shares are minted and burnt");
	check(Free::get(POOL, SHARE) == 0, "the pool holds no shares");
	check(Free::get(WHO, OTHER) == w.other && Free::get(POOL, OTHER) == 0, "other assets are not touched");
	check(same_pool(w), "the pool's parameters stay");
}
fn nothing_happened(w: &World) {
	let z = vec![int(0u128), int(0u128), int(0u128)];
	moved(w, &z, int(0u128));
	check(Kind::get() == 0, "a refused call tells the hooks nothing");
}
/// The hooks learn the reserves before and after, their differences, the issuance and the prices of shares.
fn told(w: &World, kind: u32) {
	check(Kind::get() == kind, "the hooks learn of the change once");
	check(!Veto::get(), "the hooks can refuse");
	let mut after = Vec::new();
	let mut i = 0;
	while i < w.n {
		after.push(Free::get(POOL, IDS[i]));
		i += 1;
	}
	let now = state(&after, w);
	let issuance = Issuance::get(SHARE);
	check(Issuances::get() == (w.issuance, issuance), "the hooks learn the issuance");
	let d = calculate_d::<D>(&now, amp(w));
	check(d.is_some(), "there is a state");
	let d = d.unwrap();
	let mut i = 0;
	while i < w.n {
		match Told::get(IDS[i]) {
			Some((b, a, x, p)) => {
				check(b == w.reserves[i] && a == after[i], "the hooks learn the reserves");
				check(int(x) == int(a) - int(b) || int(x) == int(b) - int(a), "the hooks learn the differences");
				check(calculate_share_price::<D>(&now, amp(w), issuance, i, Some(d)) == Some(p), "the hooks learn the prices of shares");
			}
			None => check(false, "the hooks learn of all assets"),
		}
		i += 1;
	}
}
fn change(i: usize, x: Int, o: usize, y: Int) -> Vec<Int> {
	let mut v = vec![int(0u128), int(0u128), int(0u128)];
	v[i] = x;
	v[o] = int(0u128) - y;
	v
}

fn sold(w: &World, i: usize, o: usize) {
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), SHARE, IDS[i], IDS[o], x, min)).is_ok() {
		let r = calculate_out_given_in_with_fee::<D, Y>(&state(&w.reserves, w), i, o, x, amp(w), fee(w));
		check(r.is_some(), "the amount is that of the curve");
		let y = r.unwrap().0;
		moved(w, &change(i, int(x), o, int(y)), int(0u128));
		check(y >= min, "the seller's limit holds");
		check(x >= MinTrade::get(), "no trade below the minimum");
		check(w.flags[i] & 1 != 0 && w.flags[o] & 2 != 0, "only sellable assets are sold and only buyable ones are bought");
		check(w.reserves[i] > 0 && w.reserves[o] > 0, "there are no trades with empty reserves");
		check(Way::get() == (IDS[i], IDS[o]), "the hooks learn the direction");
		told(w, 100);
	} else {
		nothing_happened(w);
	}
}
fn bought(w: &World, i: usize, o: usize) {
	let (y, max): (u128, u128) = (any("amount"), any("max_sold"));
	if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), SHARE, IDS[o], IDS[i], y, max)).is_ok() {
		let r = calculate_in_given_out_with_fee::<D, Y>(&state(&w.reserves, w), i, o, y, amp(w), fee(w));
		check(r.is_some(), "the amount is that of the curve");
		let x = r.unwrap().0;
		moved(w, &change(i, int(x), o, int(y)), int(0u128));
		check(x <= max, "the buyer's limit holds");
		check(y >= MinTrade::get(), "no trade below the minimum");
		check(w.flags[i] & 1 != 0 && w.flags[o] & 2 != 0, "only sellable assets are sold and only buyable ones are bought");
		check(w.reserves[i] > 0 && w.reserves[o] > y, "no reserve is bought out");
		check(Way::get() == (IDS[i], IDS[o]), "the hooks learn the direction");
		told(w, 100);
	} else {
		nothing_happened(w);
	}
}
/// Adds amounts of the assets at the given places; `None` is an asset that is not in the pool.
fn added(w: &World, what: &[(Option<usize>, u128)], fits: bool) {
	let mut v = Vec::new();
	let mut d = vec![int(0u128), int(0u128), int(0u128)];
	let mut after = w.reserves.clone();
	let mut given = vec![false; 3];
	let mut k = 0;
	while k < what.len() {
		let (i, x) = what[k];
		match i {
			Some(i) => {
				v.push(AssetAmount::new(IDS[i], x));
				d[i] = d[i].clone() + int(x);
			}
			None => v.push(AssetAmount::new(OTHER, x)),
		}
		k += 1;
	}
	if dispatch(|| Pallet::<Test>::add_liquidity(Origin::signed(WHO), SHARE, v)).is_ok() {
		check(fits, "liquidity is of assets of the pool, each once");
		if !fits {
			return;
		}
		let mut k = 0;
		while k < what.len() {
			let (i, x) = what[k];
			let i = i.unwrap();
			after[i] = after[i] + x;
			given[i] = true;
			check(x >= MinTrade::get(), "no amount below the minimum");
			check(w.flags[i] & 4 != 0, "liquidity is added where this is allowed");
			k += 1;
		}
		let mut i = 0;
		while i < w.n {
			check(w.reserves[i] > 0 || given[i], "the first liquidity is of all assets");
			i += 1;
		}
		let r = calculate_shares::<D>(&state(&w.reserves, w), &state(&after, w), amp(w), w.issuance, fee(w));
		check(r.is_some(), "the shares are those of the curve");
		let s = r.unwrap();
		check(s > 0, "the provider receives shares");
		check(int(w.shares) + int(s) >= int(MinLiq::get()), "no holding below the minimum");
		moved(w, &d, int(s));
		told(w, 1);
	} else {
		nothing_happened(w);
	}
}

harness! {
	fn h_p08_sell() {
		let w = world(2);
		sold(&w, 0, 1);
	}
	fn h_p08_sell_reverse() {
		let w = world(3);
		sold(&w, 2, 0);
	}
	fn h_p08_sell_same() {
		let w = world(2);
		check(dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), SHARE, A, A, any("amount"), 0)).is_err(), "an asset is not sold for itself");
		nothing_happened(&w);
	}
	fn h_p08_sell_other() {
		let w = world(2);
		let r = if any::<bool>("in") { dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), SHARE, OTHER, A, any("amount"), 0)) } else { dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), SHARE, A, OTHER, any("amount"), 0)) };
		check(r.is_err(), "only assets of the pool are traded");
		nothing_happened(&w);
	}
	fn h_p08_buy() {
		let w = world(2);
		bought(&w, 1, 0);
	}
	fn h_p08_buy_forward() {
		let w = world(3);
		bought(&w, 0, 2);
	}
	fn h_p08_buy_same() {
		let w = world(2);
		check(dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), SHARE, A, A, any("amount"), u128::MAX)).is_err(), "an asset is not bought with itself");
		nothing_happened(&w);
	}
	fn h_p08_buy_other() {
		let w = world(2);
		let r = if any::<bool>("in") { dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), SHARE, A, OTHER, any("amount"), u128::MAX)) } else { dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), SHARE, OTHER, A, any("amount"), u128::MAX)) };
		check(r.is_err(), "only assets of the pool are traded");
		nothing_happened(&w);
	}
	fn h_p08_add_all() {
		let w = world(2);
		added(&w, &[(Some(1), any("amount_b")), (Some(0), any("amount_a"))], true);
	}
	fn h_p08_add_one() {
		let w = world(2);
		added(&w, &[(Some(1), any("amount_b"))], true);
	}
	fn h_p08_add_some() {
		let w = world(3);
		added(&w, &[(Some(0), any("amount_a")), (Some(2), any("amount_c"))], true);
	}
	fn h_p08_add_twice() {
		let w = world(2);
		added(&w, &[(Some(0), any("amount_a")), (Some(0), any("amount_b"))], false);
	}
	fn h_p08_add_other() {
		let w = world(2);
		added(&w, &[(Some(0), any("amount_a")), (None, any("amount_b"))], false);
	}
	fn h_p08_add_shares() {
		let w = world(3);
		let (s, max): (u128, u128) = (any("new_shares"), any("max_paid"));
		let i = if any::<bool>("last") { 2 } else { 0 };
		if dispatch(|| Pallet::<Test>::add_liquidity_shares(Origin::signed(WHO), SHARE, s, IDS[i], max)).is_ok() {
			let r = calculate_add_one_asset::<D, Y>(&state(&w.reserves, &w), s, i, w.issuance, amp(&w), fee(&w));
			check(r.is_some(), "the amount is that of the curve");
			let x = r.unwrap().0;
			check(x <= max, "the provider's limit holds");
			check(x > 0, "shares are not free");
			check(w.flags[i] & 4 != 0, "liquidity is added where this is allowed");
			check(w.reserves[0] > 0 && w.reserves[1] > 0 && w.reserves[2] > 0, "the first liquidity is of all assets");
			check(int(w.shares) + int(s) >= int(MinLiq::get()), "no holding below the minimum");
			moved(&w, &change(i, int(x), 1, int(0u128)), int(s));
			told(&w, 1);
		} else {
			nothing_happened(&w);
		}
	}
	fn h_p08_add_shares_other() {
		let w = world(2);
		check(dispatch(|| Pallet::<Test>::add_liquidity_shares(Origin::signed(WHO), SHARE, any("new_shares"), OTHER, u128::MAX)).is_err(), "liquidity is of assets of the pool");
		nothing_happened(&w);
	}
	fn h_p08_remove() {
		let w = world(3);
		let (s, min): (u128, u128) = (any("burnt"), any("min_received"));
		let i = if any::<bool>("last") { 2 } else { 0 };
		if dispatch(|| Pallet::<Test>::remove_liquidity_one_asset(Origin::signed(WHO), SHARE, IDS[i], s, min)).is_ok() {
			let r = calculate_withdraw_one_asset::<D, Y>(&state(&w.reserves, &w), s, i, w.issuance, amp(&w), fee(&w));
			check(r.is_some(), "the amount is that of the curve");
			let x = r.unwrap().0;
			check(x >= min, "the provider's limit holds");
			removed(&w, i, s, x);
		} else {
			nothing_happened(&w);
		}
	}
	fn h_p08_withdraw() {
		let w = world(3);
		let (x, max): (u128, u128) = (any("received"), any("max_burnt"));
		let i = if any::<bool>("last") { 2 } else { 0 };
		if dispatch(|| Pallet::<Test>::withdraw_asset_amount(Origin::signed(WHO), SHARE, IDS[i], x, max)).is_ok() {
			let r = calculate_shares_for_amount::<D>(&state(&w.reserves, &w), i, x, amp(&w), w.issuance, fee(&w));
			check(r.is_some(), "the shares are those of the curve");
			let s = r.unwrap();
			check(s <= max, "the provider's limit holds");
			check(x > 0, "something is received");
			removed(&w, i, s, x);
		} else {
			nothing_happened(&w);
		}
	}
	/// Freezing what a call does not use does not stop it.
	fn h_p08_own_flags() {
		let w = world(2);
		let k = within("call", 0u8, 4);
		let (x, lim): (u128, u128) = (any("amount"), any("limit"));
		let call = || {
			let o = Origin::signed(WHO);
			match k {
				0 => Pallet::<Test>::sell(o, SHARE, A, B, x, lim).is_ok(),
				1 => Pallet::<Test>::buy(o, SHARE, B, A, x, lim).is_ok(),
				2 => Pallet::<Test>::add_liquidity(o, SHARE, vec![AssetAmount::new(A, x)]).is_ok(),
				3 => Pallet::<Test>::remove_liquidity_one_asset(o, SHARE, A, x, lim).is_ok(),
				_ => Pallet::<Test>::withdraw_asset_amount(o, SHARE, A, x, lim).is_ok(),
			}
		};
		let _ = &w;
		let all = Tradability::SELL | Tradability::BUY | Tradability::ADD_LIQUIDITY | Tradability::REMOVE_LIQUIDITY;
		AssetTradability::<Test>::insert(SHARE, A, all);
		AssetTradability::<Test>::insert(SHARE, B, all);
		let free = frame_support::storage::with_transaction::<bool, DispatchError, _>(|| TransactionOutcome::Rollback(Ok(call()))).unwrap();
		AssetTradability::<Test>::insert(SHARE, A, match k {
			0 | 1 => Tradability::SELL,
			2 => Tradability::ADD_LIQUIDITY,
			_ => Tradability::REMOVE_LIQUIDITY,
		});
		AssetTradability::<Test>::insert(SHARE, B, if k < 2 { Tradability::BUY } else { Tradability::FROZEN });
		check(dispatch(|| if call() { Ok(()) } else { Err(DispatchError::Other("")) }).is_ok() == free, "a call needs its own permissions alone");
	}
	fn h_p08_remove_other() {
		let w = world(2);
		check(dispatch(|| Pallet::<Test>::remove_liquidity_one_asset(Origin::signed(WHO), SHARE, OTHER, any("burnt"), 0)).is_err(), "only assets of the pool are received");
		check(dispatch(|| Pallet::<Test>::withdraw_asset_amount(Origin::signed(WHO), SHARE, OTHER, any("received"), u128::MAX)).is_err(), "only assets of the pool are received");
		nothing_happened(&w);
	}
	fn h_p08_create() {
		let now: u32 = any("now");
		BlockNumber::put(now);
		let (lo, hi, a, f): (u16, u16, u16, u32) = (any("amp_min"), any("amp_max"), any("amp"), within("fee", 0u32, 1000000));
		assume(lo > 0 && hi > 0);
		AmpLo::put(lo);
		AmpHi::put(hi);
		Unknown::insert(SHARE, any::<bool>("share_unknown"));
		Unknown::insert(A, any::<bool>("a_unknown"));
		Unknown::insert(B, any::<bool>("b_unknown"));
		Unknown::insert(C, any::<bool>("c_unknown"));
		let taken: bool = any("exists");
		let old = PoolInfo { assets: vec![A, B].try_into().unwrap(), initial_amplification: NonZeroU16::new(7).unwrap(), final_amplification: NonZeroU16::new(8).unwrap(), initial_block: 1, final_block: 2, fee: Permill::from_parts(9) };
		if taken {
			Pools::<Test>::insert(SHARE, old);
		}
		let root: bool = any("root");
		let list = within("assets", 0u8, 6);
		let v: Vec<AssetId> = match list {
			0 => vec![C, A, B],
			1 => vec![B, A],
			2 => vec![A, B, A],
			3 => vec![A, SHARE],
			4 => vec![B],
			5 => vec![],
			_ => vec![A, B, C, 14, 15, 16],
		};
		let r = dispatch(|| Pallet::<Test>::create_pool(if root { Origin::root() } else { Origin::signed(WHO) }, SHARE, v, a, Permill::from_parts(f)));
		if r.is_ok() {
			check(root, "the authority creates pools");
			check(!taken, "a pool is created once");
			check(list < 2, "pools are of two to five different assets other than the shares");
			check(a >= lo && a <= hi, "the amplification is in range");
			check(!Unknown::get(SHARE) && !Unknown::get(A) && !Unknown::get(B) && (list == 1 || !Unknown::get(C)), "all assets are registered");
			match Pools::<Test>::get(SHARE) {
				Some(p) => {
					check(p.assets.len() == if list == 0 { 3 } else { 2 } && p.assets[0] == A && p.assets[1] == B && (list == 1 || p.assets[2] == C), "assets are kept in order");
					check(p.initial_amplification.get() == a && p.final_amplification.get() == a && p.initial_block == now && p.final_block == now && p.fee == Permill::from_parts(f), "the pool has the parameters given");
				}
				None => check(false, "the pool exists"),
			}
			check(Kept::get(POOL), "dusting leaves the pool's account alone");
		} else {
			check(!(root && !taken && list == 1 && a >= lo && a <= hi && a > 0 && !Unknown::get(SHARE) && !Unknown::get(A) && !Unknown::get(B)), "valid pools are created");
			match Pools::<Test>::get(SHARE) {
				Some(p) => check(taken && p.initial_amplification.get() == 7 && p.fee == Permill::from_parts(9), "a refused call leaves pools alone"),
				None => check(!taken, "a refused call leaves pools alone"),
			}
			check(!Kept::get(POOL), "a refused call changes nothing");
		}
	}
	fn h_p08_amplification() {
		let w = world(2);
		let (lo, hi, a, from, to): (u16, u16, u16, u32, u32) = (any("amp_min"), any("amp_max"), any("new_amp"), any("from"), any("to"));
		assume(lo > 0 && hi > 0 && w.amps.0 >= lo && w.amps.0 <= hi && w.amps.1 >= lo && w.amps.1 <= hi);
		AmpLo::put(lo);
		AmpHi::put(hi);
		let root: bool = any("root");
		let cur = amp(&w);
		if dispatch(|| Pallet::<Test>::update_amplification(if root { Origin::root() } else { Origin::signed(WHO) }, SHARE, a, from, to)).is_ok() {
			check(root, "the authority sets the amplification");
			check(from >= w.now && to > from, "amplification changes in the future");
			check(a >= lo && a <= hi, "the amplification is in range");
			check(a as u128 != cur, "the amplification changes");
			match Pools::<Test>::get(SHARE) {
				Some(p) => {
					check(p.initial_amplification.get() as u128 == cur, "the change starts from the current amplification");
					check(p.final_amplification.get() == a && p.initial_block == from && p.final_block == to, "the change is the one asked for");
					check(p.fee == Permill::from_parts(w.fee) && p.assets.len() == 2 && p.assets[0] == A && p.assets[1] == B, "assets and fee stay");
					check(calculate_amplification(p.initial_amplification.get() as u128, a as u128, from as u128, to as u128, w.now as u128) == cur, "the amplification does not jump");
				}
				None => check(false, "the pool exists"),
			}
		} else {
			nothing_happened(&w);
			check(!(root && from >= w.now && to > from && a >= lo && a <= hi && a as u128 != cur), "valid changes are accepted");
		}
	}
	fn h_p08_fee() {
		let w = world(2);
		let (f, root): (u32, bool) = (within("new_fee", 0u32, 1000000), any("root"));
		let known: bool = any("known");
		if dispatch(|| Pallet::<Test>::update_pool_fee(if root { Origin::root() } else { Origin::signed(WHO) }, if known { SHARE } else { OTHER }, Permill::from_parts(f))).is_ok() {
			check(root, "the authority sets the fee");
			check(known, "only pools have fees");
			check(same_pool(&World { fee: f, ..w }), "only the fee changes");
		} else {
			check(!root || !known, "fees can be set");
			nothing_happened(&w);
			check(Pools::<Test>::get(OTHER).is_none(), "no pool appears");
		}
	}
	fn h_p08_tradability() {
		let w = world(2);
		let (f, root): (u8, bool) = (flags("new_flags"), any("root"));
		let known: bool = any("known");
		if dispatch(|| Pallet::<Test>::set_asset_tradable_state(if root { Origin::root() } else { Origin::signed(WHO) }, SHARE, if known { B } else { OTHER }, Tradability::from_bits_truncate(f))).is_ok() {
			check(root, "the authority sets tradability");
			check(known, "only assets of the pool have tradability");
			check(AssetTradability::<Test>::get(SHARE, B).bits() == f && AssetTradability::<Test>::get(SHARE, A).bits() == w.flags[0], "only the asset's flags change");
			check(same_pool(&w), "the pool stays");
		} else {
			check(!root || !known, "tradability can be set");
			nothing_happened(&w);
		}
	}
}
fn removed(w: &World, i: usize, s: u128, x: u128) {
	check(w.flags[i] & 8 != 0, "liquidity is removed where this is allowed");
	check(s <= w.shares, "only the account's shares are burnt");
	check(s == w.shares || int(w.shares) - int(s) >= int(MinLiq::get()), "no holding below the minimum remains");
	check(s == w.issuance || int(w.issuance) - int(s) >= int(MinLiq::get()), "no pool below the minimum remains");
	let mut d = vec![int(0u128), int(0u128), int(0u128)];
	d[i] = int(0u128) - int(x);
	moved(w, &d, int(0u128) - int(s));
	told(w, 1);
}
