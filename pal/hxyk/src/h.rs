use frame_support::pallet_prelude::*;
use hrt::*;
use hydradx_traits::pools::DustRemovalAccountWhitelist;
use hydradx_traits::registry::AssetPairAccountIdFor;
use pallet_xyk::types::AssetPair;
use pallet_xyk::{Config, Pallet, PoolAssets, ShareToken, TotalLiquidity};
use symx::*;

hrt::runtime!(pallet_xyk);
hrt::cells! {
	CFee Fee: (u32, u32) = 100;
	CDisc Disc: (u32, u32) = 101;
	CMin MinTrade: u128 = 102;
	CLiq MinLiq: u128 = 103;
	CIn InRatio: u128 = 104;
	COut OutRatio: u128 = 105;
}
hrt::gets! {
	GFee: (u32, u32) = Fee::get();
	GDisc: (u32, u32) = Disc::get();
	GMin: u128 = MinTrade::get();
	GLiq: u128 = MinLiq::get();
	GIn: u128 = InRatio::get();
	GOut: u128 = OutRatio::get();
	Native: AssetId = NATIVE;
	Src: hydradx_traits::Source = *b"hydraxyk";
}
pub struct Pools;
impl AssetPairAccountIdFor<AssetId, AccountId> for Pools {
	fn from_assets(a: AssetId, b: AssetId, _: &str) -> AccountId {
		let (a, b) = if a < b { (a, b) } else { (b, a) };
		1000 + (a * 100 + b) as u64
	}
}
pub struct White;
impl DustRemovalAccountWhitelist<AccountId> for White {
	type Error = DispatchError;
	fn add_account(_: &AccountId) -> Result<(), DispatchError> {
		Ok(())
	}
	fn remove_account(_: &AccountId) -> Result<(), DispatchError> {
		Ok(())
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetRegistry = Registry;
	type AssetPairAccountId = Pools;
	type Currency = Ledger;
	type NativeAssetId = Native;
	type WeightInfo = ();
	type GetExchangeFee = GFee;
	type MinTradingLimit = GMin;
	type MinPoolLiquidity = GLiq;
	type MaxInRatio = GIn;
	type MaxOutRatio = GOut;
	type OracleSource = Src;
	type CanCreatePool = pallet_xyk::AllowAllPools;
	type AMMHandler = ();
	type DiscountedFee = GDisc;
	type NonDustableWhitelistHandler = White;
}

const NATIVE: AssetId = 1;
const A: AssetId = 2;
const B: AssetId = 3;
const SHARE: AssetId = 50;
const WHO: AccountId = 7;
const POOL: AccountId = 1203;
const NPOOL: AccountId = 1102; // native with A
const MPOOL: AccountId = 1103; // native with B

struct World {
	ra: u128,
	rb: u128,
	wa: u128,
	wb: u128,
	wn: u128,
	shares: u128,
	mine: u128,
}
/// A pool of A and B with any reserves, and pools of each with the native asset for discounts.
fn world() -> World {
	let w = World { ra: any("reserve_a"), rb: any("reserve_b"), wa: any("user_a"), wb: any("user_b"), wn: any("user_native"), shares: any("shares"), mine: any("user_shares") };
	assume(int(w.ra) + int(w.wa) <= max128());
	assume(int(w.rb) + int(w.wb) <= max128());
	assume(w.mine <= w.shares);
	Fee::put((any::<u32>("fee_num"), any::<u32>("fee_den")));
	MinTrade::put(any::<u128>("min_trade"));
	MinLiq::put(any::<u128>("min_liquidity"));
	InRatio::put(any::<u128>("in_ratio"));
	OutRatio::put(any::<u128>("out_ratio"));
	ShareToken::<Test>::insert(POOL, SHARE);
	PoolAssets::<Test>::insert(POOL, (A, B));
	TotalLiquidity::<Test>::insert(POOL, w.shares);
	Free::insert(POOL, A, w.ra);
	Free::insert(POOL, B, w.rb);
	Free::insert(WHO, A, w.wa);
	Free::insert(WHO, B, w.wb);
	Free::insert(WHO, NATIVE, w.wn);
	Free::insert(WHO, SHARE, w.mine);
	Issuance::insert(SHARE, w.shares);
	w
}
fn discounts() -> u128 {
	let i: u128 = any("native_issuance");
	Disc::put((any::<u32>("disc_num"), any::<u32>("disc_den")));
	Issuance::insert(NATIVE, i);
	ShareToken::<Test>::insert(NPOOL, SHARE + 1);
	ShareToken::<Test>::insert(MPOOL, SHARE + 2);
	Free::insert(NPOOL, A, any::<u128>("npool_a"));
	Free::insert(NPOOL, NATIVE, any::<u128>("npool_n"));
	Free::insert(MPOOL, B, any::<u128>("mpool_b"));
	Free::insert(MPOOL, NATIVE, any::<u128>("mpool_n"));
	i
}
fn unchanged_liquidity(w: &World) {
	check(TotalLiquidity::<Test>::get(POOL) == w.shares && Issuance::get(SHARE) == w.shares && Free::get(WHO, SHARE) == w.mine, "trades do not touch shares");
}
fn nothing_happened(w: &World) {
	check(Free::get(POOL, A) == w.ra && Free::get(POOL, B) == w.rb, "a refused call leaves the pool alone");
	check(Free::get(WHO, A) == w.wa && Free::get(WHO, B) == w.wb && Free::get(WHO, NATIVE) == w.wn && Free::get(WHO, SHARE) == w.mine, "a refused call leaves the account alone");
	check(TotalLiquidity::<Test>::get(POOL) == w.shares && Issuance::get(SHARE) == w.shares, "a refused call leaves the shares alone");
	check(ShareToken::<Test>::get(POOL) == SHARE, "a refused call keeps the pool");
}
fn sell(discount: bool) {
	let w = world();
	let i = if discount { discounts() } else { 0 };
	let (x, min): (u128, u128) = (any("amount"), any("min_bought"));
	if dispatch(|| Pallet::<Test>::sell(Origin::signed(WHO), A, B, x, min, discount)).is_ok() {
		let out = int(w.rb) - int(Free::get(POOL, B));
		check(int(Free::get(POOL, A)) == int(w.ra) + int(x), "the pool receives the amount sold");
		check(int(Free::get(WHO, A)) == int(w.wa) - int(x), "the seller pays the amount sold");
		check(int(Free::get(WHO, B)) == int(w.wb) + out.clone(), "the seller receives what the pool pays");
		check(out >= int(min), "the seller's limit holds");
		check(x >= MinTrade::get(), "no trade below the minimum");
		check(int(x) * int(InRatio::get()) <= int(w.ra), "no more than the allowed part comes in");
		check(out.clone() * int(OutRatio::get()) <= int(w.rb), "no more than the allowed part goes out");
		check((int(w.ra) + int(x)) * (int(w.rb) - out) >= int(w.ra) * int(w.rb), "the reserve product does not fall");
		unchanged_liquidity(&w);
		let burnt = int(w.wn) - int(Free::get(WHO, NATIVE));
		check(int(Issuance::get(NATIVE)) == int(i) - burnt, "the native part of a discounted fee is burnt");
	} else {
		nothing_happened(&w);
	}
}
fn buy(discount: bool) {
	let w = world();
	let i = if discount { discounts() } else { 0 };
	let (x, max): (u128, u128) = (any("amount"), any("max_sold"));
	if dispatch(|| Pallet::<Test>::buy(Origin::signed(WHO), B, A, x, max, discount)).is_ok() {
		let paid = int(Free::get(POOL, A)) - int(w.ra);
		check(int(Free::get(POOL, B)) == int(w.rb) - int(x), "the pool pays the amount bought");
		check(int(Free::get(WHO, B)) == int(w.wb) + int(x), "the buyer receives the amount bought");
		check(int(Free::get(WHO, A)) == int(w.wa) - paid.clone(), "the buyer pays what the pool receives");
		check(paid <= int(max), "the buyer's limit holds");
		check(x >= MinTrade::get(), "no trade below the minimum");
		check(int(x) * int(OutRatio::get()) <= int(w.rb), "no more than the allowed part goes out");
		check((int(w.ra) + paid) * (int(w.rb) - int(x)) >= int(w.ra) * int(w.rb), "the reserve product does not fall");
		unchanged_liquidity(&w);
		let burnt = int(w.wn) - int(Free::get(WHO, NATIVE));
		check(int(Issuance::get(NATIVE)) == int(i) - burnt, "the native part of a discounted fee is burnt");
	} else {
		nothing_happened(&w);
	}
}

harness! {
	fn h_p05_sell() {
		sell(false);
	}
	fn h_p05_sell_discount() {
		sell(true);
	}
	fn h_p05_buy() {
		buy(false);
	}
	fn h_p05_buy_discount() {
		buy(true);
	}
	fn h_p05_add_liquidity() {
		let w = world();
		let (x, max): (u128, u128) = (any("amount_a"), any("max_b"));
		if dispatch(|| Pallet::<Test>::add_liquidity(Origin::signed(WHO), A, B, x, max)).is_ok() {
			let y = int(Free::get(POOL, B)) - int(w.rb);
			let s = int(TotalLiquidity::<Test>::get(POOL)) - int(w.shares);
			check(int(Free::get(POOL, A)) == int(w.ra) + int(x), "the pool receives the first asset");
			check(int(Free::get(WHO, A)) == int(w.wa) - int(x), "the provider pays the first asset");
			check(int(Free::get(WHO, B)) == int(w.wb) - y.clone(), "the provider pays the second asset");
			check(y <= int(max), "the provider's limit holds");
			check(int(Free::get(WHO, SHARE)) == int(w.mine) + s.clone(), "the provider receives the shares");
			check(TotalLiquidity::<Test>::get(POOL) == Issuance::get(SHARE), "total liquidity is the issuance of shares");
			check(s >= int(1), "no liquidity without shares");
			check(s.clone() * int(w.ra) <= int(x) * int(w.shares), "shares are at most in proportion to the first asset");
			check((int(w.ra) + int(x)) * int(w.shares) >= int(w.ra) * (int(w.shares) + s.clone()), "no share loses any of the first asset");
			check((int(w.rb) + y) * int(w.shares) >= int(w.rb) * (int(w.shares) + s), "no share loses any of the second asset");
			check(Free::get(WHO, SHARE) >= MinLiq::get(), "no position below the minimum");
		} else {
			nothing_happened(&w);
		}
	}
	fn h_p05_remove_liquidity() {
		let w = world();
		let s: u128 = any("shares_removed");
		if dispatch(|| Pallet::<Test>::remove_liquidity(Origin::signed(WHO), A, B, s)).is_ok() {
			let (x, y) = (int(w.ra) - int(Free::get(POOL, A)), int(w.rb) - int(Free::get(POOL, B)));
			check(int(Free::get(WHO, A)) == int(w.wa) + x.clone() && int(Free::get(WHO, B)) == int(w.wb) + y.clone(), "the provider receives what the pool pays");
			check(is_floor(x, int(w.ra) * int(s), int(w.shares)), "the first asset is paid in proportion, rounded down");
			check(is_floor(y, int(w.rb) * int(s), int(w.shares)), "the second asset is paid in proportion, rounded down");
			check(int(Free::get(WHO, SHARE)) == int(w.mine) - int(s), "exactly the given shares are burnt");
			check(int(Issuance::get(SHARE)) == int(w.shares) - int(s), "issuance falls by the shares burnt");
			check(TotalLiquidity::<Test>::get(POOL) == Issuance::get(SHARE), "total liquidity is the issuance of shares");
			let left = Free::get(WHO, SHARE);
			check(left == 0 || left >= MinLiq::get(), "no position below the minimum is left");
			check(ShareToken::<Test>::contains_key(POOL) == (s != w.shares), "a pool is destroyed with its last share, and only then");
			check(PoolAssets::<Test>::contains_key(POOL) == (s != w.shares), "the assets of a destroyed pool are forgotten");
		} else {
			nothing_happened(&w);
		}
	}
	fn h_p05_create() {
		let w = world();
		let exists = any::<bool>("exists");
		if !exists {
			ShareToken::<Test>::remove(POOL);
			PoolAssets::<Test>::remove(POOL);
			TotalLiquidity::<Test>::remove(POOL);
			NextAsset::put(SHARE + 5);
		}
		let (x, y): (u128, u128) = (any("amount_a"), any("amount_b"));
		let swap = any::<bool>("swap");
		let r = if swap { dispatch(|| Pallet::<Test>::create_pool(Origin::signed(WHO), B, y, A, x)) } else { dispatch(|| Pallet::<Test>::create_pool(Origin::signed(WHO), A, x, B, y)) };
		check(dispatch(|| Pallet::<Test>::create_pool(Origin::signed(WHO), A, x, A, y)).is_err(), "no pool of an asset with itself");
		if r.is_ok() {
			check(!exists, "a pair has one pool");
			check(x >= MinLiq::get() && y >= MinLiq::get(), "no pool below the minimum");
			check(int(Free::get(POOL, A)) == int(w.ra) + int(x) && int(Free::get(POOL, B)) == int(w.rb) + int(y), "the pool receives both amounts");
			check(int(Free::get(WHO, A)) == int(w.wa) - int(x) && int(Free::get(WHO, B)) == int(w.wb) - int(y), "the creator pays both amounts");
			let t = ShareToken::<Test>::get(POOL);
			check(t == SHARE + 5, "the pool has a share token of its own");
			check(TotalLiquidity::<Test>::get(POOL) == x && Free::get(WHO, t) == x && Issuance::get(t) == x, "the creator owns all shares");
		}
	}
}
