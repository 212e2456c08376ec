use frame_support::pallet_prelude::*;
use frame_support::traits::Contains;
use hrt::*;
use pallet_circuit_breaker::*;
use symx::*;

hrt::runtime!(pallet_circuit_breaker);
macro_rules! cfg { ($($p:ident $t:ident : $ty:ty = $id:expr;)*) => { $( pub struct $p; impl frame_support::storage::StorageInstance for $p { fn id() -> u64 { $id } } type $t = StorageValue<$p, $ty, ValueQuery>; )* } }
cfg! {
	CT Trade: (u32, u32) = 100;
	CA AddLimit: Option<(u32, u32)> = 101;
	CR RemoveLimit: Option<(u32, u32)> = 102;
}
hrt::gets! {
	DTrade: (u32, u32) = Trade::get();
	DAdd: Option<(u32, u32)> = AddLimit::get();
	DRemove: Option<(u32, u32)> = RemoveLimit::get();
	Hub: AssetId = HUB;
}
pub struct White;
impl Contains<AccountId> for White {
	fn contains(a: &AccountId) -> bool {
		*a == WHITE
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = AssetId;
	type Balance = Balance;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type WhitelistedAccounts = White;
	type DefaultMaxNetTradeVolumeLimitPerBlock = DTrade;
	type DefaultMaxAddLiquidityLimitPerBlock = DAdd;
	type DefaultMaxRemoveLiquidityLimitPerBlock = DRemove;
	type OmnipoolHubAsset = Hub;
	type WeightInfo = ();
}
const HUB: AssetId = 1;
const A: AssetId = 2;
const B: AssetId = 3;
const WHITE: AccountId = 9;

fn fraction(n: &'static str, d: &'static str) -> (u32, u32) {
	let l = (any::<u32>(n), any::<u32>(d));
	assume(Pallet::<Test>::validate_limit(l).is_ok());
	l
}
/// A tracked volume within its limit, or nothing yet.
fn volume(a: AssetId, p: &'static str, l: &'static str, i: &'static str, o: &'static str) -> Option<(u128, u128, u128)> {
	if any::<bool>(p) {
		let v = (any::<u128>(l), any::<u128>(i), any::<u128>(o));
		assume(both(int(v.1) - int(v.2) <= int(v.0), int(v.2) - int(v.1) <= int(v.0)));
		AllowedTradeVolumeLimitPerAsset::<Test>::insert(a, TradeVolumeLimit::<Test> { limit: v.0, volume_in: v.1, volume_out: v.2 });
		Some(v)
	} else {
		None
	}
}
fn after(a: AssetId, before: Option<(u128, u128, u128)>, reserve: u128, frac: (u32, u32), plus_in: u128, plus_out: u128) {
	let s = AllowedTradeVolumeLimitPerAsset::<Test>::get(a);
	check(s.is_some(), "volume is tracked");
	let s = s.unwrap();
	match before {
		Some(v) => {
			check(s.limit == v.0, "the limit of a block does not move");
			check(int(s.volume_in) == int(v.1) + int(plus_in), "volume in");
			check(int(s.volume_out) == int(v.2) + int(plus_out), "volume out");
		}
		None => {
			check(is_floor(int(s.limit), int(reserve) * int(frac.0), int(frac.1)), "the limit is the fraction of the reserve at first use");
			check(s.volume_in == plus_in, "first volume in");
			check(s.volume_out == plus_out, "first volume out");
		}
	}
	check(int(s.volume_in) - int(s.volume_out) <= int(s.limit), "net inflow stays within the limit");
	check(int(s.volume_out) - int(s.volume_in) <= int(s.limit), "net outflow stays within the limit");
}
/// The amount of liquidity counted so far in the block, or nothing yet.
fn liq(add: bool) -> Option<(u128, u128)> {
	if any::<bool>("tracked") {
		let v = (any::<u128>("limit"), any::<u128>("liquidity"));
		assume(v.1 <= v.0);
		let s = LiquidityLimit::<Test> { limit: v.0, liquidity: v.1 };
		if add {
			AllowedAddLiquidityAmountPerAsset::<Test>::insert(A, s)
		} else {
			AllowedRemoveLiquidityAmountPerAsset::<Test>::insert(A, s)
		}
		Some(v)
	} else {
		None
	}
}
fn liquidity(add: bool) {
	let custom = any::<bool>("own_limit");
	let lim = if any::<bool>("limited") { Some(fraction("num", "den")) } else { None };
	let other = if any::<bool>("other_limited") { Some(fraction("num2", "den2")) } else { None };
	// the limit in force is the asset's own or the default
	if custom {
		if add {
			LiquidityAddLimitPerAsset::<Test>::insert(A, lim);
			LiquidityRemoveLimitPerAsset::<Test>::insert(A, other);
		} else {
			LiquidityRemoveLimitPerAsset::<Test>::insert(A, lim);
			LiquidityAddLimitPerAsset::<Test>::insert(A, other);
		}
	} else if add {
		AddLimit::put(lim);
		RemoveLimit::put(other);
	} else {
		RemoveLimit::put(lim);
		AddLimit::put(other);
	}
	let before = liq(add);
	let who: u64 = any("who");
	let (reserve, amount): (u128, u128) = (any("reserve"), any("amount"));
	let r = if add {
		dispatch(|| Pallet::<Test>::ensure_add_liquidity_limit(Origin::signed(who), A, reserve, amount))
	} else {
		dispatch(|| Pallet::<Test>::ensure_remove_liquidity_limit(Origin::signed(who), A, reserve, amount))
	};
	let now = if add { AllowedAddLiquidityAmountPerAsset::<Test>::get(A) } else { AllowedRemoveLiquidityAmountPerAsset::<Test>::get(A) };
	if who == WHITE {
		check(r.is_ok(), "exempt accounts are never held up");
		check(now.map(|s| (s.limit, s.liquidity)) == before, "nothing is counted for exempt accounts");
	} else if r.is_ok() {
		match (lim, before) {
			(None, b) => check(now.map(|s| (s.limit, s.liquidity)) == b, "without a limit nothing is counted"),
			(Some(_), Some(b)) => {
				let s = now.unwrap();
				check(s.limit == b.0, "the limit of a block does not move");
				check(int(s.liquidity) == int(b.1) + int(amount), "the amount is counted");
				check(s.liquidity <= s.limit, "the total stays within the limit");
			}
			(Some(f), None) => {
				let s = now.unwrap();
				check(is_floor(int(s.limit), int(reserve) * int(f.0), int(f.1)), "the limit is the fraction of the liquidity at first use");
				check(s.liquidity == amount, "the first amount is counted");
				check(s.liquidity <= s.limit, "the first amount stays within the limit");
			}
		}
	}
}

harness! {
	fn h_p02_trade() {
		let (fa, fb) = (fraction("num_a", "den_a"), fraction("num_b", "den_b"));
		// one asset with the default limit, one with its own
		Trade::put(fa);
		TradeVolumeLimitPerAsset::<Test>::insert(B, fb);
		let a = volume(A, "seen_a", "limit_a", "in_a", "out_a");
		let b = volume(B, "seen_b", "limit_b", "in_b", "out_b");
		let (ra, rb): (u128, u128) = (any("reserve_a"), any("reserve_b"));
		let (x, y): (u128, u128) = (any("amount_in"), any("amount_out"));
		let r = dispatch(|| Pallet::<Test>::ensure_pool_state_change_limit(A, ra, x, B, rb, y));
		if r.is_ok() {
			after(A, a, ra, fa, x, 0);
			after(B, b, rb, fb, 0, y);
		} else if let (Some(va), Some(vb)) = (a, b) {
			// refused: some net volume would pass its limit, or a total would not fit a balance
			let within_a = int(va.1) + int(x) - int(va.2) <= int(va.0);
			let within_b = int(vb.2) + int(y) - int(vb.1) <= int(vb.0);
			let fit = both(int(va.1) + int(x) <= max128(), int(vb.2) + int(y) <= max128());
			check(!both(both(within_a, within_b), fit), "a trade within the limits is not refused");
		}
	}
	fn h_p02_trade_hub() {
		let fa = fraction("num_a", "den_a");
		Trade::put(fa);
		let a = volume(A, "seen_a", "limit_a", "in_a", "out_a");
		let (ra, rh): (u128, u128) = (any("reserve_a"), any("reserve_hub"));
		let (x, y): (u128, u128) = (any("amount_in"), any("amount_out"));
		let sell = any::<bool>("hub_in");
		let r = if sell { dispatch(|| Pallet::<Test>::ensure_pool_state_change_limit(HUB, rh, x, A, ra, y)) } else { dispatch(|| Pallet::<Test>::ensure_pool_state_change_limit(A, ra, x, HUB, rh, y)) };
		check(AllowedTradeVolumeLimitPerAsset::<Test>::get(HUB).is_none(), "the hub asset is not tracked");
		if r.is_ok() {
			if sell {
				after(A, a, ra, fa, 0, y);
			} else {
				after(A, a, ra, fa, x, 0);
			}
		}
	}
	fn h_p02_add_liquidity() {
		liquidity(true);
	}
	fn h_p02_remove_liquidity() {
		liquidity(false);
	}
	fn h_p02_block_end() {
		let _ = volume(A, "seen_a", "limit_a", "in_a", "out_a");
		let _ = volume(B, "seen_b", "limit_b", "in_b", "out_b");
		let _ = liq(true);
		let l = (any::<u128>("limit2"), any::<u128>("liquidity2"));
		AllowedRemoveLiquidityAmountPerAsset::<Test>::insert(B, LiquidityLimit::<Test> { limit: l.0, liquidity: l.1 });
		<Pallet<Test> as frame_support::traits::Hooks<Block>>::on_finalize(any("block"));
		check(AllowedTradeVolumeLimitPerAsset::<Test>::get(A).is_none() && AllowedTradeVolumeLimitPerAsset::<Test>::get(B).is_none(), "trade volumes start anew every block");
		check(AllowedAddLiquidityAmountPerAsset::<Test>::get(A).is_none(), "added liquidity starts anew every block");
		check(AllowedRemoveLiquidityAmountPerAsset::<Test>::get(B).is_none(), "removed liquidity starts anew every block");
	}
	fn h_p02_settings() {
		let l = (any::<u32>("num"), any::<u32>("den"));
		let some = any::<bool>("some");
		let asset: u32 = any("asset");
		let root = any::<bool>("root");
		let o = if root { Origin::root() } else { Origin::signed(any("who")) };
		let which: u8 = within("which", 0, 2);
		let old = (any::<u32>("old_num"), any::<u32>("old_den"));
		Trade::put(old);
		AddLimit::put(Some(old));
		RemoveLimit::put(Some(old));
		let r = match which {
			0 => dispatch(|| Pallet::<Test>::set_trade_volume_limit(o, asset, l)),
			1 => dispatch(|| Pallet::<Test>::set_add_liquidity_limit(o, asset, if some { Some(l) } else { None })),
			_ => dispatch(|| Pallet::<Test>::set_remove_liquidity_limit(o, asset, if some { Some(l) } else { None })),
		};
		let valid = l.0 >= 1 && l.0 <= 10_000 && l.1 >= 1 && l.1 <= 10_000;
		let given = which == 0 || some;
		check(r.is_ok() == (root && asset != HUB && (valid || !given)), "limits are set by the technical origin only, within range, never for the hub asset");
		let ok = r.is_ok();
		check(TradeVolumeLimitPerAsset::<Test>::get(asset) == if ok && which == 0 { l } else { old }, "trade limit");
		check(LiquidityAddLimitPerAsset::<Test>::get(asset) == if ok && which == 1 { if some { Some(l) } else { None } } else { Some(old) }, "add limit");
		check(LiquidityRemoveLimitPerAsset::<Test>::get(asset) == if ok && which == 2 { if some { Some(l) } else { None } } else { Some(old) }, "remove limit");
	}
}
