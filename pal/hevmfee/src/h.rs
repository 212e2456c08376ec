use frame_support::pallet_prelude::*;
use frame_support::traits::Hooks;
use hrt::*;
use hydra_dx_math::ema::EmaPrice;
use hydra_dx_math::ratio::Ratio;
use hydradx_traits::NativePriceOracle;
use pallet_dynamic_evm_fee::{BaseFeePerGas, Config, Pallet, ETH_HDX_REFERENCE_PRICE};
use pallet_evm::FeeCalculator;
use sp_core::U256;
use sp_runtime::FixedU128;
use symx::*;

hrt::runtime!();
hrt::cells! {
	CMin Least: u128 = 100;
	CMax Most: u128 = 101;
	CDef Base: u128 = 102;
	CMul Mult: u128 = 103;
	CPrice Price: Option<(u128, u128)> = 104;
}
hrt::gets! {
	GMin: u128 = Least::get();
	GMax: u128 = Most::get();
	GDef: u128 = Base::get();
	GMul: FixedU128 = FixedU128::from_inner(Mult::get());
	GWeth: AssetId = WETH;
}
pub struct Oracle;
impl NativePriceOracle<AssetId, EmaPrice> for Oracle {
	fn price(c: AssetId) -> Option<EmaPrice> {
		if c != WETH {
			return None;
		}
		Price::get().map(|p| Ratio { n: p.0, d: p.1 })
	}
}
impl Config for Test {
	type AssetId = AssetId;
	type MinBaseFeePerGas = GMin;
	type MaxBaseFeePerGas = GMax;
	type DefaultBaseFeePerGas = GDef;
	type FeeMultiplier = GMul;
	type NativePriceOracle = Oracle;
	type WethAssetId = GWeth;
	type WeightInfo = ();
}
const WETH: AssetId = 20;
const ONE: u128 = 1_000_000_000_000_000_000;
type P = Pallet<Test>;

fn cap(x: Int) -> Int {
	if x <= max128() { x } else { max128() }
}
/// The fee after a block: (1 + 3 · multiplier) of the default, at the price of ether, within the bounds.
fn expected(old: u128) -> Int {
	let base = Base::get();
	let add = cap(int(Mult::get()) * int(base) / int(ONE));
	let tripled = cap(add * int(3u128));
	let fee = cap(int(base) + tripled);
	let Some((n, d)) = Price::get() else { return int(old) };
	if d == 0 {
		return int(old);
	}
	let price = int(n) * int(ONE) / int(d);
	if price > max128() {
		return int(old);
	}
	let diff = price * int(ONE) / int(ETH_HDX_REFERENCE_PRICE.into_inner());
	if diff > max128() {
		return int(old);
	}
	let fee = cap(diff * fee / int(ONE));
	if fee < int(Least::get()) {
		int(Least::get())
	} else if fee > int(Most::get()) {
		int(Most::get())
	} else {
		fee
	}
}
fn world(price: bool) -> u128 {
	Least::put(any::<u128>("least"));
	Most::put(any::<u128>("most"));
	Base::put(any::<u128>("base"));
	Mult::put(any::<u128>("multiplier"));
	assume(Least::get() < Most::get());
	if price {
		Price::put(Some((any::<u128>("price_n"), any::<u128>("price_d"))));
	}
	any("old")
}
harness! {
	fn h_p18_fee() {
		let old = world(true);
		BaseFeePerGas::<Test>::put(U256::from(old));
		let want = expected(old);
		P::on_initialize(any::<u32>("block"));
		let now = P::min_gas_price().0;
		check(int(now) == want, "the fee follows the multiplier and the price of ether within the bounds");
	}
	fn h_p18_bounds() {
		let old = world(true);
		assume(Least::get() <= old && old <= Most::get());
		BaseFeePerGas::<Test>::put(U256::from(old));
		P::on_initialize(any::<u32>("block"));
		let now = P::min_gas_price().0;
		check(int(Least::get()) <= int(now) && int(now) <= int(Most::get()), "the fee stays within the bounds");
	}
	fn h_p18_no_price() {
		let old = world(false);
		BaseFeePerGas::<Test>::put(U256::from(old));
		P::on_initialize(any::<u32>("block"));
		check(int(P::min_gas_price().0) == int(old), "without a price the fee stays");
	}
	fn h_p18_default() {
		world(false);
		check(int(P::min_gas_price().0) == int(Base::get()), "the fee starts at the default");
		P::on_initialize(any::<u32>("block"));
		check(int(P::min_gas_price().0) == int(Base::get()), "without a price the default stays");
	}
}
