use frame_support::pallet_prelude::*;
use frame_support::traits::{Contains, Hooks};
use hrt::*;
use hydra_dx_math::ema::{calculate_new_by_integrating_incoming, update_outdated_to_current};
use hydra_dx_math::ratio::Ratio;
use hydradx_traits::{AggregatedOracle, Liquidity, OnLiquidityChangedHandler, OnTradeHandler, OraclePeriod, Source, Volume};
use pallet_ema_oracle::{into_smoothing, Accumulator, Config, OnActivityHandler, OracleEntry, OracleWhitelist, Oracles, Pallet, WhitelistedAssets, MAX_PERIODS};
use symx::*;

hrt::runtime!(pallet_ema_oracle);
hrt::cells! {
	CMax MaxEntries: u32 = 100;
	CWhite White: bool = 101;
}
hrt::gets! {
	Max: u32 = MaxEntries::get();
	Periods: BoundedVec<OraclePeriod, ConstU32<MAX_PERIODS>> = vec![OraclePeriod::LastBlock, OraclePeriod::TenMinutes].try_into().unwrap();
}
pub struct Listed;
impl Contains<(Source, AssetId, AssetId)> for Listed {
	fn contains(k: &(Source, AssetId, AssetId)) -> bool {
		White::get() && k.0 == SRC && k.1 == A && k.2 == B
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type WeightInfo = ();
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type BlockNumberProvider = Clock;
	type SupportedPeriods = Periods;
	type OracleWhitelist = Listed;
	type MaxUniqueEntries = Max;
}
const SRC: Source = *b"omnipool";
const A: AssetId = 2;
const B: AssetId = 3;
type Entry = OracleEntry<u32>;
type Handler = OnActivityHandler<Test>;

fn entry(n: [&'static str; 8], at: u32) -> Entry {
	Entry {
		price: Ratio::new(any(n[0]), any(n[1])),
		volume: Volume { a_in: any(n[2]), b_out: any(n[3]), a_out: any(n[4]), b_in: any(n[5]) },
		liquidity: Liquidity::new(any(n[6]), any(n[7])),
		updated_at: at,
	}
}
fn stored() -> Option<Entry> {
	Accumulator::<Test>::get().get(&(SRC, (A, B))).cloned()
}
fn before(now: u32) -> Option<Entry> {
	MaxEntries::put(any::<u32>("max_entries"));
	BlockNumber::put(now);
	White::put(any::<bool>("listed"));
	if any::<bool>("entered") {
		assume(MaxEntries::get() >= 1);
		let e = entry(["p_n", "p_d", "p_ain", "p_bout", "p_aout", "p_bin", "p_la", "p_lb"], now);
		Accumulator::<Test>::mutate(|a| {
			let _ = a.try_insert((SRC, (A, B)), e.clone());
		});
		Some(e)
	} else {
		None
	}
}
fn sat(a: u128, b: u128) -> u128 {
	a.saturating_add(b)
}
fn same(e: &Option<Entry>, f: &Option<Entry>) -> bool {
	e == f
}
/// The price the other way round; no price stays no price.
fn turn(p: Ratio) -> Ratio {
	if p.n == 0 {
		p
	} else {
		Ratio::new(p.d, p.n)
	}
}
/// Same price, liquidity and volumes of an entry as reported for the assets in the other order.
fn turned(e: &Entry) -> Entry {
	Entry {
		price: turn(e.price),
		volume: Volume { a_in: e.volume.b_in, b_out: e.volume.a_out, a_out: e.volume.b_out, b_in: e.volume.a_in },
		liquidity: Liquidity::new(e.liquidity.b, e.liquidity.a),
		updated_at: e.updated_at,
	}
}
const T: OraclePeriod = OraclePeriod::TenMinutes;
const L: OraclePeriod = OraclePeriod::LastBlock;

/// The stored oracles of the pair: all of the same block, in the past.
fn oracles(at: u32) -> Option<(Entry, Entry, u32)> {
	if any::<bool>("known") {
		let init: u32 = any("init");
		assume(init <= at);
		let l = entry(["l_n", "l_d", "l_ain", "l_bout", "l_aout", "l_bin", "l_la", "l_lb"], at);
		let t = entry(["t_n", "t_d", "t_ain", "t_bout", "t_aout", "t_bin", "t_la", "t_lb"], at);
		Oracles::<Test>::insert((SRC, (A, B), L), (l.clone(), init));
		Oracles::<Test>::insert((SRC, (A, B), T), (t.clone(), init));
		Some((l, t, init))
	} else {
		None
	}
}
/// The ten minute entry brought to block `to` with the entry of the last active block.
fn aged(t: &Entry, l: &Entry, to: u32) -> Entry {
	if t.updated_at == to {
		return t.clone();
	}
	let (price, v, q) = update_outdated_to_current(to - t.updated_at, t.raw_data(), (l.price, (l.liquidity.a, l.liquidity.b)), into_smoothing(T));
	Entry { price, volume: v.into(), liquidity: q.into(), updated_at: to }
}

harness! {
	fn h_p04_trade() {
		let now: u32 = any("now");
		let prev = before(now);
		let (x, y, la, lb): (u128, u128, u128, u128) = (any("amount_in"), any("amount_out"), any("liquidity_in"), any("liquidity_out"));
		let p = Ratio::new(any("price_n"), any("price_d"));
		let flip = any::<bool>("flip");
		let r = if flip { Handler::on_trade(SRC, B, A, x, y, la, lb, p) } else { Handler::on_trade(SRC, A, B, x, y, la, lb, p) };
		if r.is_err() {
			check(la == 0 || lb == 0 || (prev.is_none() && MaxEntries::get() == 0), "a trade is refused without liquidity or without room only");
			check(same(&stored(), &prev), "a refused trade is not counted");
		} else if White::get() {
			let e = stored();
			check(e.is_some(), "the trade is entered");
			let e = e.unwrap();
			let q = prev.map(|e| e.volume).unwrap_or(Volume { a_in: 0, b_out: 0, a_out: 0, b_in: 0 });
			if flip {
				check(e.price == turn(p), "price of the ordered pair");
				check(e.liquidity == Liquidity::new(lb, la), "liquidity of the ordered pair");
				check(e.volume == (Volume { a_in: q.a_in, b_out: q.b_out, a_out: sat(q.a_out, y), b_in: sat(q.b_in, x) }), "volumes of a block add up");
			} else {
				check(e.price == p, "price of the pair");
				check(e.liquidity == Liquidity::new(la, lb), "liquidity of the pair");
				check(e.volume == (Volume { a_in: sat(q.a_in, x), b_out: sat(q.b_out, y), a_out: q.a_out, b_in: q.b_in }), "volumes of a block add up in order");
			}
			check(e.updated_at == now, "entered in this block");
		} else {
			check(same(&stored(), &prev), "only listed pairs are entered");
		}
	}
	fn h_p04_liquidity() {
		let now: u32 = any("now");
		let prev = before(now);
		let (la, lb): (u128, u128) = (any("liquidity_a"), any("liquidity_b"));
		let p = Ratio::new(any("price_n"), any("price_d"));
		let flip = any::<bool>("flip");
		let (x, y): (u128, u128) = (any("amount_a"), any("amount_b"));
		assume(p.n > 0 && p.d > 0);
		let r = if flip { Handler::on_liquidity_changed(SRC, B, A, y, x, lb, la, Ratio::new(p.d, p.n)) } else { Handler::on_liquidity_changed(SRC, A, B, x, y, la, lb, p) };
		if r.is_ok() && White::get() {
			let e = stored();
			check(e.is_some(), "the change is entered");
			let e = e.unwrap();
			check(e.price == p && e.liquidity == Liquidity::new(la, lb) && e.updated_at == now, "latest price and liquidity");
			check(e.volume == prev.map(|e| e.volume).unwrap_or(Volume { a_in: 0, b_out: 0, a_out: 0, b_in: 0 }), "liquidity is no volume");
		} else {
			check(same(&stored(), &prev), "nothing is entered otherwise");
		}
	}
	fn h_p04_block_end() {
		let (now, at): (u32, u32) = (any("now"), any("at"));
		assume(at < now);
		let e = before(now);
		let o = oracles(at);
		<Pallet<Test> as Hooks<Block>>::on_finalize(now);
		check(Accumulator::<Test>::get().is_empty(), "the next block starts anew");
		let l = Oracles::<Test>::get((SRC, (A, B), L));
		let t = Oracles::<Test>::get((SRC, (A, B), T));
		match (e, o) {
			(None, o) => {
				check(l == o.clone().map(|o| (o.0, o.2)), "without activity the last block oracle stays");
				check(t == o.map(|o| (o.1, o.2)), "without activity the oracle stays");
			}
			(Some(e), None) => {
				check(l == Some((e.clone(), now)), "a new pair starts with its first entry");
				check(t == Some((e, now)), "a new pair starts every period with its first entry");
			}
			(Some(e), Some((ol, ot, init))) => {
				check(l == Some((e.clone(), init)), "the last block oracle is the entry of the block");
				let a = aged(&ot, &ol, now - 1);
				let (price, v, q) = calculate_new_by_integrating_incoming(a.raw_data(), e.raw_data(), into_smoothing(T));
				let want = Entry { price, volume: v.into(), liquidity: q.into(), updated_at: now };
				check(t == Some((want, init)), "the average is aged over idle blocks and takes in the entry of the block");
			}
		}
		check(Oracles::<Test>::get((SRC, (A, B), OraclePeriod::Hour)).is_none(), "only supported periods are kept");
	}
	fn h_p04_read() {
		let (now, at): (u32, u32) = (any("now"), any("at"));
		assume(at < now);
		BlockNumber::put(now);
		let o = oracles(at);
		let flip = any::<bool>("flip");
		let last = any::<bool>("last");
		let p = if last { L } else { T };
		let r = if flip { Pallet::<Test>::get_entry(B, A, p, SRC) } else { Pallet::<Test>::get_entry(A, B, p, SRC) };
		check(Pallet::<Test>::get_entry(A, A, p, SRC).is_err(), "no price of an asset in itself");
		match o {
			None => check(r.is_err(), "no entry of a pair never traded"),
			Some((l, t, init)) => {
				check(r.is_ok(), "an entry of every known pair");
				let r = r.ok().unwrap();
				let mut l = l;
				if at != now - 1 {
					l.volume = Volume { a_in: 0, b_out: 0, a_out: 0, b_in: 0 };
					l.updated_at = now - 1;
				}
				let e = if last { l } else { aged(&t, &l, now - 1) };
				let e = if flip { turned(&e) } else { e };
				check(r.price == e.price, "price as of the last block");
				check(r.volume == e.volume, "volume as of the last block");
				check(r.liquidity == e.liquidity, "liquidity as of the last block");
				check(r.oracle_age == now - 1 - init, "age of the oracle");
			}
		}
	}
	fn h_p04_list() {
		let (now, at): (u32, u32) = (any("now"), any("at"));
		let e = before(now);
		let o = oracles(at);
		let root = any::<bool>("root");
		let who = if root { Origin::root() } else { Origin::signed(any("who")) };
		let add = any::<bool>("add");
		let there = any::<bool>("there");
		if there {
			assume(MaxEntries::get() >= 1);
			WhitelistedAssets::<Test>::mutate(|l| {
				let _ = l.try_insert((SRC, (A, B)));
			});
		}
		let flip = any::<bool>("flip");
		let pair = if flip { (B, A) } else { (A, B) };
		let r = if add { dispatch(|| Pallet::<Test>::add_oracle(who, SRC, pair)) } else { dispatch(|| Pallet::<Test>::remove_oracle(who, SRC, pair)) };
		let listed = OracleWhitelist::<Test>::contains(&(SRC, A, B));
		check(r.is_ok() == (root && if add { there || MaxEntries::get() >= 1 } else { there }), "the list is changed by the authority only");
		check(listed == if r.is_ok() { add } else { there }, "a listed pair is found, in either order");
		let gone = r.is_ok() && !add;
		check(same(&stored(), &if gone { None } else { e }), "entries of a removed pair are dropped");
		check(Oracles::<Test>::get((SRC, (A, B), T)).is_some() == (!gone && o.is_some()), "oracles of a removed pair are dropped");
		check(Oracles::<Test>::get((SRC, (A, B), L)).is_some() == (!gone && o.is_some()), "last block oracle of a removed pair is dropped");
	}
	fn h_p04_smoothing() {
		let close = |p: OraclePeriod, blocks: u32| {
			let b = int(into_smoothing(p).to_bits()) * int(blocks + 1);
			let two = int(1u128 << 127) * int(2u32);
			both(b.clone() - two.clone() <= int(blocks), two - b <= int(blocks))
		};
		check(close(OraclePeriod::LastBlock, 1), "last block");
		check(close(OraclePeriod::Short, 9), "nine blocks");
		check(close(OraclePeriod::TenMinutes, 100), "ten minutes");
		check(close(OraclePeriod::Hour, 600), "an hour");
		check(close(OraclePeriod::Day, 14_400), "a day");
		check(close(OraclePeriod::Week, 100_800), "a week");
	}
}
