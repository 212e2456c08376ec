use frame_support::pallet_prelude::*;
use frame_support::traits::Contains;
use hrt::*;
use hydradx_traits::registry::{Create, Inspect};
use hydradx_traits::AssetKind;
use orml_traits::GetByKey;
use pallet_asset_registry::{AssetDetails, AssetIds, AssetLocations, AssetType, Assets, BannedAssets, Config, LocationAssets, NextAssetId, OracleWhitelist, Pallet, XcmRateLimitsInRegistry};
use symx::*;

hrt::runtime!(pallet_asset_registry);
hrt::gets! {
	GStart: AssetId = START;
	GWeight: u64 = 1;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Most;
impl Get<u32> for Most {
	fn get() -> u32 {
		8
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Least;
impl Get<u32> for Least {
	fn get() -> u32 {
		3
	}
}
/// Root or the committee.
pub struct Update;
impl EnsureOrigin<Origin> for Update {
	type Success = ();
	fn try_origin(o: Origin) -> Result<(), Origin> {
		match o.0 {
			frame_system::RawOrigin::Root => Ok(()),
			frame_system::RawOrigin::Signed(COMMITTEE) => Ok(()),
			_ => Err(o),
		}
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type RegistryOrigin = frame_system::EnsureRoot<AccountId>;
	type UpdateOrigin = Update;
	type AssetId = AssetId;
	type AssetNativeLocation = u32;
	type Currency = Ledger;
	type SequentialIdStartAt = GStart;
	type StringLimit = Most;
	type MinStringLimit = Least;
	type RegExternalWeightMultiplier = GWeight;
	type WeightInfo = ();
}
const START: AssetId = 1000;
const A: AssetId = 2;
const B: AssetId = 1001;
const COMMITTEE: AccountId = 5;
const WHO: AccountId = 7;
type P = Pallet<Test>;
type Details = AssetDetails<Most>;
type Text = BoundedVec<u8, Most>;
const NAMES: [&str; 3] = ["DOT", "USDT", "NEW"];
const PLACES: [u32; 3] = [21, 22, 23];

fn text(s: &str) -> Text {
	Text::try_from(s.as_bytes().to_vec()).unwrap()
}
fn pick(n: &'static str, most: u8) -> u8 {
	let k: u8 = any(n);
	let mut i = 0;
	while i + 1 < most {
		if k == i {
			return i;
		}
		i += 1;
	}
	most - 1
}
fn name() -> Option<Text> {
	match pick("name", 5) {
		0 => None,
		1 => Some(text("DOT")),
		2 => Some(text("USDT")),
		3 => Some(text("NEW")),
		_ => Some(text("ab")),
	}
}
fn symbol() -> Option<Text> {
	match pick("symbol", 5) {
		0 => None,
		1 => Some(text("SYM")),
		2 => Some(text("SY M")),
		3 => Some(text("SYM\t")),
		_ => Some(text("sy")),
	}
}
fn place() -> Option<u32> {
	match pick("place", 4) {
		0 => None,
		1 => Some(21),
		2 => Some(22),
		_ => Some(23),
	}
}
fn maybe<T: Any>(n: &'static str, v: &'static str) -> Option<T> {
	if any::<bool>(n) {
		Some(any(v))
	} else {
		None
	}
}
#[derive(Clone)]
struct World {
	a: Details,
	b: Details,
	at_a: Option<u32>,
	next: u32,
}
fn world() -> World {
	let more = any::<bool>("has_decimals");
	let w = World {
		a: AssetDetails::new(
			if any::<bool>("named") { Some(text("DOT")) } else { None },
			AssetType::Token,
			any("ed_a"),
			Some(text("OLD")),
			if more { Some(any("decimals_a")) } else { None },
			if more { Some(any("rate_a")) } else { None },
			any("sufficient_a"),
		),
		b: AssetDetails::new(Some(text("USDT")), AssetType::Token, any("ed_b"), None, Some(6), None, any("sufficient_b")),
		at_a: if any::<bool>("placed") { Some(21) } else { None },
		next: any("next"),
	};
	assume(w.next >= 2);
	Assets::<Test>::insert(A, w.a.clone());
	Assets::<Test>::insert(B, w.b.clone());
	if let Some(n) = w.a.name.clone() {
		AssetIds::<Test>::insert(n, A);
	}
	AssetIds::<Test>::insert(text("USDT"), B);
	if let Some(l) = w.at_a {
		AssetLocations::<Test>::insert(A, l);
		LocationAssets::<Test>::insert(l, A);
	}
	AssetLocations::<Test>::insert(B, 22);
	LocationAssets::<Test>::insert(22, B);
	NextAssetId::<Test>::put(w.next);
	w
}
fn good(n: &Option<Text>) -> bool {
	match n {
		Some(n) => n.len() >= 3,
		None => true,
	}
}
fn solid(n: &Option<Text>) -> bool {
	match n {
		Some(n) => {
			let mut i = 0;
			while i < n.len() {
				if n[i] == b' ' || n[i] == b'\t' {
					return false;
				}
				i += 1;
			}
			true
		}
		None => true,
	}
}
fn same(a: &Details, b: &Details) -> bool {
	a.name == b.name && a.asset_type == b.asset_type && a.existential_deposit == b.existential_deposit && a.symbol == b.symbol && a.decimals == b.decimals && a.xcm_rate_limit == b.xcm_rate_limit && a.is_sufficient == b.is_sufficient
}
fn is(id: AssetId, d: &Details, at: Option<u32>) {
	match Assets::<Test>::get(id) {
		Some(x) => {
			check(x.name == d.name && x.symbol == d.symbol, "the asset has its name and symbol");
			check(x.existential_deposit == d.existential_deposit && x.xcm_rate_limit == d.xcm_rate_limit, "the asset has its deposit and limit");
			check(x.asset_type == d.asset_type && x.decimals == d.decimals, "the asset has its type and decimals");
			check(x.is_sufficient == d.is_sufficient, "the asset is sufficient or not");
		}
		None => check(false, "the asset is there"),
	}
	check(AssetLocations::<Test>::get(id) == at, "the asset has its location");
}
/// The names and locations lead back to the assets, and only to them.
fn maps(all: &Vec<(AssetId, Option<Text>, Option<u32>)>) {
	let mut i = 0;
	while i < 3 {
		let n = text(NAMES[i]);
		let mut who = None;
		let mut there = None;
		let mut k = 0;
		while k < all.len() {
			if all[k].1 == Some(n.clone()) {
				who = Some(all[k].0);
			}
			if all[k].2 == Some(PLACES[i]) {
				there = Some(all[k].0);
			}
			k += 1;
		}
		check(AssetIds::<Test>::get(n) == who, "a name leads to the asset that has it");
		check(LocationAssets::<Test>::get(PLACES[i]) == there, "a location leads to the asset that has it");
		i += 1;
	}
}
fn unchanged(w: &World) {
	is(A, &w.a, w.at_a);
	is(B, &w.b, Some(22));
	check(NextAssetId::<Test>::get() == w.next, "no number is used");
	maps(&vec![(A, w.a.name.clone(), w.at_a), (B, w.b.name.clone(), Some(22))]);
}
fn taken(w: &World, n: &Option<Text>) -> bool {
	match n {
		Some(n) => *n == text("USDT") || Some(n.clone()) == w.a.name,
		None => false,
	}
}
fn occupied(w: &World, l: Option<u32>) -> bool {
	match l {
		Some(l) => l == 22 || Some(l) == w.at_a,
		None => false,
	}
}
/// A new asset `d` at `l` with the chosen or the next number, if it may be had; returns that number.
fn registered(w: &World, chosen: Option<u32>, d: &Details, l: Option<u32>) -> Option<u32> {
	if !good(&d.name) || !good(&d.symbol) || !solid(&d.symbol) || taken(w, &d.name) || occupied(w, l) {
		return None;
	}
	match chosen {
		Some(i) => {
			if i >= START || i == A {
				None
			} else {
				Some(i)
			}
		}
		None => {
			if w.next > u32::MAX - START || w.next == u32::MAX {
				None
			} else {
				Some(w.next + START)
			}
		}
	}
}
fn outcome(w: &World, id: Option<u32>, chosen: bool, d: &Details, l: Option<u32>) {
	match id {
		None => {
			unchanged(w);
		}
		Some(i) => {
			is(i, d, l);
			is(A, &w.a, w.at_a);
			is(B, &w.b, Some(22));
			check(NextAssetId::<Test>::get() == if chosen { w.next } else { w.next + 1 }, "numbers are used once");
			check(i != A && i != B, "a new asset has a number of its own");
			maps(&vec![(A, w.a.name.clone(), w.at_a), (B, w.b.name.clone(), Some(22)), (i, d.name.clone(), l)]);
		}
	}
}
fn caller(k: u8) -> Origin {
	if k == 0 {
		Origin::root()
	} else if k == 1 {
		Origin::signed(COMMITTEE)
	} else {
		Origin::signed(WHO)
	}
}
fn enter(named: bool) {
	let w = world();
	let k = pick("caller", 3);
	let chosen: Option<u32> = maybe("choose", "id");
	let (n, s, l) = if named { (name(), None, place()) } else { (None, symbol(), if any::<bool>("place") { Some(23) } else { None }) };
	let full = any::<bool>("full");
	let ed: Option<u128> = if full { Some(any("ed")) } else { None };
	let d = AssetDetails::new(n.clone(), AssetType::Bond, ed.unwrap_or(1), s.clone(), if full { Some(any("dec")) } else { None }, if full { Some(any("limit")) } else { None }, any("sufficient"));
	let id = if k == 0 { registered(&w, chosen, &d, l) } else { None };
	let r = dispatch(|| P::register(caller(k), chosen, n, d.asset_type, ed, s, d.decimals, l, d.xcm_rate_limit, d.is_sufficient));
	check(r.is_ok() == id.is_some(), "the registry's authority registers what has a name, number and location of its own");
	outcome(&w, id, chosen.is_some(), &d, l);
}
fn update(names: bool) {
	let w = world();
	let k = pick("caller", 3);
	let (n, s, l) = if names { (name(), symbol(), None) } else { (None, None, place()) };
	let full = any::<bool>("full");
	let t = if full { Some(AssetType::XYK) } else { None };
	let ed: Option<u128> = if full { Some(any("ed")) } else { None };
	let rate: Option<u128> = if full { Some(any("limit")) } else { None };
	let dec: Option<u8> = maybe("has_dec", "dec");
	let suff: Option<bool> = maybe("has_suff", "sufficient");
	let ok = k < 2
		&& good(&n) && good(&s) && solid(&s)
		&& !taken(&w, &n)
		&& !(w.a.is_sufficient && suff == Some(false))
		&& !(dec.is_some() && w.a.decimals.is_some() && k != 0)
		&& !(l.is_some() && k != 0)
		&& l != Some(22);
	let r = dispatch(|| P::update(caller(k), A, n.clone(), t, ed, rate, suff, s.clone(), dec, l));
	check(r.is_ok() == ok, "an asset is changed by those who may, to what it may be");
	if !ok {
		unchanged(&w);
		return;
	}
	let d = AssetDetails::new(
		if n.is_some() { n } else { w.a.name.clone() },
		t.unwrap_or(w.a.asset_type),
		ed.unwrap_or(w.a.existential_deposit),
		if s.is_some() { s } else { w.a.symbol.clone() },
		if dec.is_some() { dec } else { w.a.decimals },
		if rate.is_some() { rate } else { w.a.xcm_rate_limit },
		suff.unwrap_or(w.a.is_sufficient),
	);
	let at = if l.is_some() { l } else { w.at_a };
	is(A, &d, at);
	is(B, &w.b, Some(22));
	check(NextAssetId::<Test>::get() == w.next, "no number is used");
	maps(&vec![(A, d.name.clone(), at), (B, w.b.name.clone(), Some(22))]);
}
harness! {
	fn h_p21_register() {
		enter(true);
	}
	fn h_p21_register_symbol() {
		enter(false);
	}
	fn h_p21_register_external() {
		let w = world();
		let l = place().unwrap_or(23);
		let d = AssetDetails::new(None, AssetType::External, 1, None, None, None, false);
		let id = registered(&w, None, &d, Some(l));
		let r = dispatch(|| P::register_external(Origin::signed(WHO), l));
		check(r.is_ok() == id.is_some(), "anyone registers an external asset at a location that is free");
		outcome(&w, id, false, &d, Some(l));
	}
	fn h_p21_create() {
		let w = world();
		let n = name().unwrap_or(text("NEW"));
		let ed: Option<u128> = maybe("has_ed", "ed");
		let d = AssetDetails::new(Some(n.clone()), AssetType::StableSwap, ed.unwrap_or(1), None, maybe("has_dec", "dec"), None, any("sufficient"));
		let known = if n == text("USDT") { Some(B) } else if Some(n.clone()) == w.a.name { Some(A) } else { None };
		let id = if known.is_some() { known } else { registered(&w, None, &d, None) };
		let r = dispatch(|| <P as Create<Balance>>::get_or_register_asset(n, AssetKind::StableSwap, ed, None, d.decimals, None, None, d.is_sufficient));
		check(r.ok() == id, "a name leads to its asset or becomes a new one's");
		if known.is_some() {
			unchanged(&w);
		} else {
			outcome(&w, id, false, &d, None);
		}
	}
	fn h_p21_update() {
		update(true);
	}
	fn h_p21_update_place() {
		update(false);
	}
	fn h_p21_update_missing() {
		let w = world();
		let id: u32 = any("id");
		assume(id != A);
		assume(id != B);
		let r = dispatch(|| P::update(Origin::root(), id, Some(text("NEW")), None, None, None, None, None, None, Some(23)));
		check(r.is_err(), "only assets that are registered are changed");
		unchanged(&w);
		check(!P::exists(id), "nothing appears");
	}
	fn h_p21_ban() {
		let w = world();
		let k = pick("caller", 3);
		let id: u32 = any("id");
		let was = any::<bool>("banned");
		if was {
			BannedAssets::<Test>::insert(A, ());
		}
		let banned = was && id == A;
		if any::<bool>("lift") {
			let r = dispatch(|| P::unban_asset(caller(k), id));
			let ok = k < 2 && banned;
			check(r.is_ok() == ok, "those who may lift a ban that is there");
			check(P::is_banned(id) == (banned && !ok), "the asset is no longer banned");
			check(P::is_banned(A) == (was && !(ok && id == A)), "others stay banned");
		} else {
			let r = dispatch(|| P::ban_asset(caller(k), id));
			let ok = k < 2 && (id == A || id == B) && !banned;
			check(r.is_ok() == ok, "those who may ban a registered asset");
			check(P::is_banned(id) == (banned || ok), "the asset is banned");
			check(P::is_banned(A) == (was || (ok && id == A)), "others are not");
		}
		unchanged(&w);
	}
	fn h_p21_reads() {
		let w = world();
		let id: u32 = any("id");
		let d = if id == A { Some(w.a.clone()) } else if id == B { Some(w.b.clone()) } else { None };
		check(P::exists(id) == d.is_some(), "what is registered exists");
		check(<P as GetByKey<AssetId, u128>>::get(&id) == d.as_ref().map(|d| d.existential_deposit).unwrap_or(u128::MAX), "the deposit of an asset that is not registered is out of reach");
		check(XcmRateLimitsInRegistry::<Test>::get(&id) == d.as_ref().and_then(|d| d.xcm_rate_limit), "the limit is the asset's");
		check(P::is_sufficient(id) == d.as_ref().map(|d| d.is_sufficient).unwrap_or(false), "an asset is sufficient as registered");
		check(P::decimals(id) == d.as_ref().and_then(|d| d.decimals), "the decimals are the asset's");
		check(P::existential_deposit(id) == d.as_ref().map(|d| d.existential_deposit), "the deposit is the asset's");
		let other: u32 = any("other");
		let s = |i: u32| if i == A { w.a.is_sufficient } else if i == B { w.b.is_sufficient } else { false };
		check(OracleWhitelist::<Test>::contains(&(*b"omnipool", id, other)) == (s(id) && s(other)), "oracles take pairs of sufficient assets");
	}
}
