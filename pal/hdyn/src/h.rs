use frame_support::pallet_prelude::*;
use hrt::*;
use hydra_dx_math::dynamic_fees::types::{FeeParams as MathParams, OracleEntry};
use hydra_dx_math::dynamic_fees::{recalculate_asset_fee, recalculate_protocol_fee};
use orml_traits::GetByKey;
use pallet_dynamic_fees::types::{FeeEntry, FeeParams};
use pallet_dynamic_fees::{AssetFee, Config, UpdateAndRetrieveFees};
use sp_runtime::{FixedU128, Permill};
use symx::*;

hrt::runtime!();
hrt::cells! {
	CPa AssetParams: (u32, u32, u128, u128) = 100;
	CPp ProtocolParams: (u32, u32, u128, u128) = 101;
	CVol Volume: Option<(u128, u128)> = 102;
	CLiq Liquidity: Option<u128> = 103;
}
fn params(p: (u32, u32, u128, u128)) -> FeeParams<Permill> {
	FeeParams { min_fee: Permill::from_parts(p.0), max_fee: Permill::from_parts(p.1), decay: FixedU128::from_inner(p.2), amplification: FixedU128::from_inner(p.3) }
}
hrt::gets! {
	Pa: FeeParams<Permill> = params(AssetParams::get());
	Pp: FeeParams<Permill> = params(ProtocolParams::get());
}
pub struct Vol(u128, u128);
impl pallet_dynamic_fees::traits::Volume<Balance> for Vol {
	fn amount_in(&self) -> Balance {
		self.0
	}
	fn amount_out(&self) -> Balance {
		self.1
	}
}
pub struct Oracle;
impl pallet_dynamic_fees::traits::VolumeProvider<AssetId, Balance> for Oracle {
	type Volume = Vol;
	fn asset_volume(_: AssetId) -> Option<Vol> {
		Volume::get().map(|v| Vol(v.0, v.1))
	}
	fn asset_liquidity(_: AssetId) -> Option<Balance> {
		Liquidity::get()
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type BlockNumberProvider = Clock;
	type Fee = Permill;
	type AssetId = AssetId;
	type Oracle = Oracle;
	type AssetFeeParameters = Pa;
	type ProtocolFeeParameters = Pp;
}
impl From<pallet_dynamic_fees::Event<Test>> for Ev {
	fn from(_: pallet_dynamic_fees::Event<Test>) -> Ev {
		Ev
	}
}
const A: AssetId = 2;
const B: AssetId = 3;
fn fee_params(lo: &'static str, hi: &'static str, d: &'static str, a: &'static str) -> (u32, u32, u128, u128) {
	let p = (within::<u32>(lo, 0, 1_000_000), within::<u32>(hi, 0, 1_000_000), any(d), any(a));
	assume(p.0 <= p.1);
	p
}
struct World {
	pa: (u32, u32, u128, u128),
	pp: (u32, u32, u128, u128),
	now: u32,
	prev: Option<(u32, u32, u32)>,
	vol: Option<(u128, u128)>,
	liq: Option<u128>,
}
fn world() -> World {
	let w = World {
		pa: fee_params("asset_min", "asset_max", "asset_decay", "asset_amp"),
		pp: fee_params("protocol_min", "protocol_max", "protocol_decay", "protocol_amp"),
		now: any("now"),
		prev: if any::<bool>("known") { Some((within("asset_fee", 0, 1_000_000), within("protocol_fee", 0, 1_000_000), any("updated"))) } else { None },
		vol: if any::<bool>("traded") { Some((any("volume_in"), any("volume_out"))) } else { None },
		liq: if any::<bool>("liquid") { Some(any("liquidity")) } else { None },
	};
	AssetParams::put(w.pa);
	ProtocolParams::put(w.pp);
	Volume::put(w.vol);
	Liquidity::put(w.liq);
	BlockNumber::put(w.now);
	if let Some(p) = w.prev {
		// fees are always within their limits, and of the past
		assume(p.0 >= w.pa.0 && p.0 <= w.pa.1 && p.1 >= w.pp.0 && p.1 <= w.pp.1 && p.2 <= w.now);
		AssetFee::<Test>::insert(A, FeeEntry { asset_fee: Permill::from_parts(p.0), protocol_fee: Permill::from_parts(p.1), timestamp: p.2 });
	}
	w
}
harness! {
	fn h_p03_update() {
		let w = world();
		let (a0, p0, t0) = w.prev.unwrap_or((w.pa.0, w.pp.0, 0));
		let (a, p) = UpdateAndRetrieveFees::<Test>::get(&A);
		let e = AssetFee::<Test>::get(A);
		match (w.vol, w.liq) {
			(Some(v), Some(l)) if w.now != t0 => {
				let m = |q| -> MathParams<Permill> { params(q).into() };
				let d = (w.now - t0) as u128;
				let entry = || OracleEntry { amount_in: v.0, amount_out: v.1, liquidity: l };
				check(a == recalculate_asset_fee(entry(), Permill::from_parts(a0), d, m(w.pa)), "the asset fee follows the net volume over the blocks passed");
				check(p == recalculate_protocol_fee(entry(), Permill::from_parts(p0), d, m(w.pp)), "the protocol fee follows the net volume over the blocks passed");
				check(e.map(|e| (e.asset_fee, e.protocol_fee, e.timestamp)) == Some((a, p, w.now)), "the new fees are kept");
			}
			_ => {
				check(a.deconstruct() == a0 && p.deconstruct() == p0, "fees change once a block, and with oracle data only");
				check(e.map(|e| (e.asset_fee.deconstruct(), e.protocol_fee.deconstruct(), e.timestamp)) == w.prev, "nothing is kept otherwise");
			}
		}
		check(AssetFee::<Test>::get(B).is_none(), "other assets keep their fees");
	}
	fn h_p03_twice() {
		let w = world();
		assume(w.now > 0);
		let f = UpdateAndRetrieveFees::<Test>::get(&A);
		let known = w.vol.is_some() && w.liq.is_some();
		if known {
			// another oracle entry within the block changes nothing
			Volume::put(Some((any::<u128>("volume_in2"), any::<u128>("volume_out2"))));
		}
		let g = UpdateAndRetrieveFees::<Test>::get(&A);
		check(f == g, "all trades of a block pay the same fees");
	}
	fn h_p03_limits() {
		let w = world();
		let (a, p) = UpdateAndRetrieveFees::<Test>::get(&A);
		check(a.deconstruct() >= w.pa.0 && a.deconstruct() <= w.pa.1, "the asset fee is within its limits");
		check(p.deconstruct() >= w.pp.0 && p.deconstruct() <= w.pp.1, "the protocol fee is within its limits");
	}
}
