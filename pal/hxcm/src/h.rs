use cumulus_pallet_xcmp_queue::XcmDeferFilter;
use frame_support::pallet_prelude::*;
use hrt::*;
use hydra_dx_math::rate_limiter::{calculate_deferred_duration, calculate_new_accumulated_amount};
use orml_traits::GetByKey;
use pallet_xcm_rate_limiter::{AccumulatedAmount, AccumulatedAmounts, Config, Pallet};
use polkadot_parachain::primitives::Id;
use sp_runtime::traits::Convert;
use symx::*;
use xcm::lts::prelude::*;
use xcm::VersionedXcm;

hrt::runtime!(pallet_xcm_rate_limiter);
hrt::cells! {
	CDur Duration: u32 = 100;
	CMax Longest: u32 = 101;
	CL2 Limit2: Option<u128> = 102;
	CL3 Limit3: Option<u128> = 103;
}
hrt::gets! {
	GDur: u32 = Duration::get();
	GMax: u32 = Longest::get();
}
pub struct Ids;
impl Convert<MultiLocation, Option<u32>> for Ids {
	fn convert(l: MultiLocation) -> Option<u32> {
		if l == L2 {
			Some(2)
		} else if l == L3 {
			Some(3)
		} else {
			None
		}
	}
}
pub struct Limits;
impl GetByKey<u32, Option<u128>> for Limits {
	fn get(c: &u32) -> Option<u128> {
		if *c == 2 {
			Limit2::get()
		} else if *c == 3 {
			Limit3::get()
		} else {
			None
		}
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AssetId = u32;
	type DeferDuration = GDur;
	type MaxDeferDuration = GMax;
	type RelayBlockNumberProvider = Clock;
	type CurrencyIdConvert = Ids;
	type RateLimitFor = Limits;
}
const L2: MultiLocation = MultiLocation { parents: 1, interior: 2 };
const L3: MultiLocation = MultiLocation { parents: 1, interior: 3 };
const L4: MultiLocation = MultiLocation { parents: 1, interior: 4 };
const L5: MultiLocation = MultiLocation { parents: 2, interior: 2 };
type P = Pallet<Test>;
type Sums = AccumulatedAmounts<Test>;

struct World {
	at2: AccumulatedAmount,
	at3: AccumulatedAmount,
	now: u32,
}
fn world() -> World {
	let w = World {
		at2: AccumulatedAmount { amount: any("sum2"), last_updated: any("at2") },
		at3: AccumulatedAmount { amount: any("sum3"), last_updated: any("at3") },
		now: any("now"),
	};
	Duration::put(any::<u32>("duration"));
	Longest::put(any::<u32>("longest"));
	if any::<bool>("limited2") {
		Limit2::put(Some(any::<u128>("limit2")));
	}
	if any::<bool>("limited3") {
		Limit3::put(Some(any::<u128>("limit3")));
	}
	BlockNumber::put(w.now);
	Sums::insert(L2, w.at2.clone());
	Sums::insert(L3, w.at3.clone());
	w
}
/// what an asset of that amount adds to the sum of its location, and the time it asks for
fn taken(s: &AccumulatedAmount, limit: Option<u128>, amount: u128, now: u32) -> (AccumulatedAmount, u32) {
	let Some(limit) = limit else { return (s.clone(), 0) };
	let passed = now.saturating_sub(s.last_updated);
	let sum = calculate_new_accumulated_amount(Duration::get(), limit, amount, s.amount, passed);
	(AccumulatedAmount { amount: sum, last_updated: now }, calculate_deferred_duration(Duration::get(), limit, sum))
}
fn coin(l: MultiLocation, amount: u128) -> MultiAsset {
	MultiAsset { id: Concrete(l), fun: Fungible(amount) }
}
fn ask(m: Vec<Instruction<()>>) -> Option<u32> {
	P::deferred_by(Id(2000), any::<u32>("sent"), &VersionedXcm::V3(Xcm(m))).1
}
fn limit(t: u32) -> Option<u32> {
	if t == 0 {
		None
	} else if t < Longest::get() {
		Some(t)
	} else {
		Some(Longest::get())
	}
}
fn sums(a: &AccumulatedAmount, b: &AccumulatedAmount) {
	check(Sums::get(L2) == *a, "the asset's sum counts what arrived, and decays, at this block");
	check(Sums::get(L3) == *b, "the other asset's sum counts what arrived of it");
	check(!Sums::contains_key(L4) && !Sums::contains_key(L5), "nothing is counted for unknown assets");
}
fn kind(m: Vec<MultiAsset>) -> Instruction<()> {
	if any::<bool>("teleport") {
		ReceiveTeleportedAsset(MultiAssets(m))
	} else {
		ReserveAssetDeposited(MultiAssets(m))
	}
}
harness! {
	fn h_p19_one() {
		let w = world();
		let x: u128 = any("amount");
		let (s, t) = taken(&w.at2, Limit2::get(), x, w.now);
		let r = ask(vec![kind(vec![coin(L2, x)]), ClearOrigin]);
		check(r == limit(t), "a message waits as long as its asset asks, at most the maximum");
		sums(&s, &w.at3);
	}
	fn h_p19_two() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount"), any("amount_b"));
		let (s, t) = taken(&w.at2, Limit2::get(), x, w.now);
		let (s3, t3) = taken(&w.at3, Limit3::get(), y, w.now);
		let r = ask(vec![kind(vec![coin(L2, x), coin(L3, y)])]);
		check(r == limit(if t > t3 { t } else { t3 }), "a message waits for the asset that asks for most");
		sums(&s, &s3);
	}
	fn h_p19_unknown() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount"), any("amount_b"));
		let (s3, t3) = taken(&w.at3, Limit3::get(), y, w.now);
		let other = MultiAsset { id: Concrete(L2), fun: NonFungible(AssetInstance::Index(x)) };
		let third = MultiAsset { id: Abstract([7; 32]), fun: Fungible(x) };
		let r = ask(vec![kind(vec![coin(L4, x), other, coin(L5, x), third, coin(L3, y)])]);
		check(r == limit(t3), "unknown assets do not matter and do not hide others");
		sums(&w.at2, &s3);
	}
	fn h_p19_again() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount"), any("amount_b"));
		let (s, t) = taken(&w.at2, Limit2::get(), x, w.now);
		let (s, u) = taken(&s, Limit2::get(), y, w.now);
		let r = ask(vec![kind(vec![coin(L2, x), coin(L2, y)])]);
		check(r == limit(if t > u { t } else { u }), "parts of one asset add up within a message");
		sums(&s, &w.at3);
	}
	fn h_p19_next() {
		let w = world();
		let (x, y): (u128, u128) = (any("amount"), any("amount_b"));
		let (s, t) = taken(&w.at2, Limit2::get(), x, w.now);
		let r = ask(vec![kind(vec![coin(L2, x)])]);
		check(r == limit(t), "the first message waits for its own amount");
		let later: u32 = any("later");
		BlockNumber::put(later);
		let (s, t) = taken(&s, Limit2::get(), y, later);
		let r = ask(vec![kind(vec![coin(L2, y)])]);
		check(r == limit(t), "the next message waits for what both brought");
		sums(&s, &w.at3);
	}
	fn h_p19_others() {
		let w = world();
		let x: u128 = any("amount");
		let n: u8 = any("case");
		let first = if n == 0 {
			vec![]
		} else if n == 1 {
			vec![WithdrawAsset(MultiAssets(vec![coin(L2, x)]))]
		} else if n == 2 {
			vec![ClearOrigin, ReserveAssetDeposited(MultiAssets(vec![coin(L2, x)]))]
		} else {
			vec![ReserveAssetDeposited(MultiAssets(vec![]))]
		};
		check(ask(first).is_none(), "messages that bring no assets do not wait");
		sums(&w.at2, &w.at3);
	}
	fn h_p19_versions() {
		let w = world();
		let x: u128 = any("amount");
		if any::<bool>("converts") {
			let (s, t) = taken(&w.at2, Limit2::get(), x, w.now);
			let m = VersionedXcm::V2(Some(Xcm(vec![kind(vec![coin(L2, x)])])));
			let r: Option<u32> = <P as XcmDeferFilter<()>>::deferred_by(Id(1), 3, &m).1;
			check(r == limit(t), "messages of older versions are limited alike");
			sums(&s, &w.at3);
		} else {
			let m: VersionedXcm<()> = VersionedXcm::V2(None);
			let r = P::deferred_by(Id(1), 3, &m).1;
			check(r == Some(Longest::get()), "what cannot be read waits for the maximum");
			sums(&w.at2, &w.at3);
		}
	}
}
