use frame_support::pallet_prelude::*;
use frame_support::traits::Hooks;
use frame_support::weights::Weight;
use frame_support::PalletId;
use hrt::*;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::price::PriceProvider;
use orml_traits::GetByKey;
use pallet_referrals::traits::Convert;
use pallet_referrals::{AssetRewards, Config, Error, FeeDistribution, Level, LinkedAccounts, Pallet, PendingConversions, ReferralAccounts, ReferralCode, ReferralCodes, Referrer, ReferrerShares, TotalShares, TraderShares};
use sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding;
use sp_runtime::{DispatchError, Permill, Rounding};
use symx::*;

hrt::runtime!(pallet_referrals);
hrt::cells! {
	CNoPrice NoPrice: bool = 100;
	CPn PriceN: u128 = 101;
	CPd PriceD: u128 = 102;
	CExt Ext: u64 = 103;
	CSeed Seed: u128 = 104;
	CConv Outcome: u8 = 105;
	CGot Got: u128 = 106;
	CFee Fee: u128 = 107;
	CConvs Conversions: u32 = 108;
	COutcome2 OutcomeB: u8 = 109;
}
pub struct PRates;
impl frame_support::storage::StorageInstance for PRates {
	fn id() -> u64 {
		120
	}
}
/// Volume and rates (referrer, trader, external) of the levels: 0 for none, 1 to 5 for the tiers.
pub type Rates = StorageMap<PRates, Identity, u8, (u128, (u32, u32, u32)), ValueQuery>;
pub struct Levels;
impl GetByKey<Level, (Balance, FeeDistribution)> for Levels {
	fn get(l: &Level) -> (Balance, FeeDistribution) {
		let (v, r) = Rates::get(number(*l));
		(v, dist(r))
	}
}
fn dist(r: (u32, u32, u32)) -> FeeDistribution {
	FeeDistribution { referrer: Permill::from_parts(r.0), trader: Permill::from_parts(r.1), external: Permill::from_parts(r.2) }
}
fn number(l: Level) -> u8 {
	match l {
		Level::None => 0,
		Level::Tier0 => 1,
		Level::Tier1 => 2,
		Level::Tier2 => 3,
		Level::Tier3 => 4,
		Level::Tier4 => 5,
	}
}
fn tier(n: u8) -> Level {
	match n {
		0 => Level::None,
		1 => Level::Tier0,
		2 => Level::Tier1,
		3 => Level::Tier2,
		4 => Level::Tier3,
		_ => Level::Tier4,
	}
}
pub struct Price;
impl PriceProvider<AssetId> for Price {
	type Price = EmaPrice;
	fn get_price(a: AssetId, _b: AssetId) -> Option<EmaPrice> {
		if NoPrice::get() || a != R {
			return None;
		}
		Some(EmaPrice::new(PriceN::get(), PriceD::get()))
	}
}
pub struct Exchange;
impl Convert<AccountId, AssetId, Balance> for Exchange {
	type Error = DispatchError;
	/// Sells for what the harness says, or fails as it says.
	fn convert(who: AccountId, from: AssetId, to: AssetId, x: Balance) -> Result<Balance, DispatchError> {
		Conversions::put(Conversions::get() + 1);
		match if from == B { OutcomeB::get() } else { Outcome::get() } {
			0 => {
				<Ledger as orml_traits::MultiCurrency<AccountId>>::transfer(from, &who, &POOL, x)?;
				<Ledger as orml_traits::MultiCurrency<AccountId>>::transfer(to, &POOL, &who, Got::get())?;
				Ok(Got::get())
			}
			1 => Err(Error::<Test>::ConversionMinTradingAmountNotReached.into()),
			2 => Err(Error::<Test>::ConversionZeroAmountReceived.into()),
			_ => Err(DispatchError::Other("exchange")),
		}
	}
}
hrt::gets! {
	Id: PalletId = PalletId(*b"pltbrefs");
	Reward: AssetId = R;
	Registration: (AssetId, Balance, AccountId) = (R, Fee::get(), TREASURY);
	GExt: Option<AccountId> = if Ext::get() == 0 { None } else { Some(Ext::get()) };
	GSeed: u128 = Seed::get();
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetId = AssetId;
	type Currency = Ledger;
	type Convert = Exchange;
	type PriceProvider = Price;
	type RewardAsset = Reward;
	type PalletId = Id;
	type RegistrationFee = Registration;
	type CodeLength = ConstU32<7>;
	type MinCodeLength = ConstU32<4>;
	type LevelVolumeAndRewardPercentages = Levels;
	type ExternalAccount = GExt;
	type SeedNativeAmount = GSeed;
	type WeightInfo = ();
}
const R: AssetId = 0;
const A: AssetId = 2;
const B: AssetId = 3;
const SRC: AccountId = 7;
const WHO: AccountId = 8;
const REF: AccountId = 9;
const EXT: AccountId = 10;
const POOL: AccountId = 11;
const TREASURY: AccountId = 12;
const OTHER: AccountId = 13;
type P = Pallet<Test>;
type Code = ReferralCode<ConstU32<7>>;

fn pot() -> AccountId {
	P::pot_account_id()
}
fn rates(n: [&'static str; 3]) -> (u32, u32, u32) {
	let r = (any::<u32>(n[0]), any::<u32>(n[1]), any::<u32>(n[2]));
	assume(int(r.0) + int(r.1) + int(r.2) <= int(1_000_000u32));
	r
}
fn of(rate: u32, x: u128) -> u128 {
	Permill::from_parts(rate).mul_floor(x)
}
fn worth(x: u128) -> Option<u128> {
	multiply_by_rational_with_rounding(x, PriceN::get(), PriceD::get(), Rounding::Down)
}
struct Before {
	src: u128,
	pot: u128,
	amount: u128,
	total: u128,
	refs: u128,
	own: u128,
	ext: u128,
}
fn before(asset: AssetId) -> Before {
	let w = Before { src: any("source"), pot: any("pot"), amount: any("amount"), total: any("total_shares"), refs: any("referrer_shares"), own: any("trader_shares"), ext: any("external_shares") };
	assume(int(w.src) + int(w.pot) <= max128());
	assume(int(w.refs) + int(w.own) + int(w.ext) <= int(w.total));
	PriceN::put(any::<u128>("price_n"));
	PriceD::put(within::<u128>("price_d", 1, u128::MAX));
	Free::insert(SRC, asset, w.src);
	Free::insert(pot(), asset, w.pot);
	TotalShares::<Test>::put(w.total);
	ReferrerShares::<Test>::insert(REF, w.refs);
	TraderShares::<Test>::insert(WHO, w.own);
	TraderShares::<Test>::insert(EXT, w.ext);
	w
}
/// The fee is handed out by these rates, and nothing else happens.
fn handed_out(w: &Before, asset: AssetId, r: (u32, u32, u32), linked: bool, ext: AccountId) {
	let take = [if linked { of(r.0, w.amount) } else { 0 }, of(r.1, w.amount), if ext != 0 { of(r.2, w.amount) } else { 0 }];
	let taken = int(take[0]) + int(take[1]) + int(take[2]);
	let s = (worth(take[0]), worth(take[1]), worth(take[2]));
	let ok = dispatch(|| P::process_trade_fee(SRC, WHO, asset, w.amount));
	let s0 = if linked { s.0 } else { Some(0) };
	let s2 = if ext != 0 { s.2 } else { Some(0) };
	let can = if int(w.src) >= taken {
		match (s0, s.1, s2) {
			(Some(a), Some(b), Some(c)) => Some((a, b, c)),
			_ => None,
		}
	} else {
		None
	};
	match (ok, can) {
		(Ok(v), Some((a, b, c))) => {
			check(int(v) == taken, "the part of the fee used is reported");
			check(int(v) <= int(w.amount), "no more than the fee is used");
			check(int(Free::get(SRC, asset)) == int(w.src) - taken.clone() && int(Free::get(pot(), asset)) == int(w.pot) + taken, "the parts of the fee go to the pot");
			let new = int(a) + int(b) + int(c);
			assume(int(w.total) + new.clone() <= max128());
			check(int(TotalShares::<Test>::get()) == int(w.total) + new, "shares are issued for the worth of the rewards");
			check(int(ReferrerShares::<Test>::get(REF)) == int(w.refs) + int(a), "the referrer has shares for the referrer's part");
			let who = if ext == WHO { int(b) + int(c) } else { int(b) };
			check(int(TraderShares::<Test>::get(WHO)) == int(w.own) + who, "the trader has shares for the trader's part");
			let e = if ext == EXT { int(c) } else { int(0u32) };
			check(int(TraderShares::<Test>::get(EXT)) == int(w.ext) + e, "the external account has shares for its part");
			check(PendingConversions::<Test>::contains_key(asset) == (asset != R), "what is not the reward asset is to be converted");
		}
		(Err(_), None) => unchanged(w, asset),
		(Ok(_), None) => check(false, "a fee that cannot be paid or valued is refused"),
		(Err(_), Some(_)) => check(false, "a fee that can be paid and valued is not refused"),
	}
}
fn unchanged(w: &Before, asset: AssetId) {
	check(Free::get(SRC, asset) == w.src && Free::get(pot(), asset) == w.pot, "nothing is taken");
	check(TotalShares::<Test>::get() == w.total && ReferrerShares::<Test>::get(REF) == w.refs && TraderShares::<Test>::get(WHO) == w.own && TraderShares::<Test>::get(EXT) == w.ext, "no shares are issued");
}
fn link(n: u8) {
	LinkedAccounts::<Test>::insert(WHO, REF);
	Referrer::<Test>::insert(REF, (tier(n), any::<u128>("accumulated")));
}
/// Rates of another asset and of other levels, which are not to be used.
fn decoys(n: u8) {
	AssetRewards::<Test>::insert(B, tier(n), dist((1, 2, 3)));
	AssetRewards::<Test>::insert(A, tier(if n == 5 { 0 } else { n + 1 }), dist((4, 5, 6)));
	Rates::insert(if n == 5 { 1 } else { n + 1 }, (0, (7, 8, 9)));
}
struct Claim {
	pot: u128,
	who: u128,
	refs: u128,
	own: u128,
	total: u128,
	ed: u128,
}
fn claimant() -> Claim {
	let w = Claim { pot: any("pot"), who: any("user"), refs: any("referrer_shares"), own: any("trader_shares"), total: any("total_shares"), ed: any("deposit") };
	assume(int(w.pot) + int(w.who) <= max128());
	assume(int(w.refs) + int(w.own) + int(any::<u128>("other_shares")) <= int(w.total));
	Seed::put(any::<u128>("seed"));
	Free::insert(pot(), R, w.pot);
	Free::insert(WHO, R, w.who);
	Deposits::insert(R, w.ed);
	TotalShares::<Test>::put(w.total);
	ReferrerShares::<Test>::insert(WHO, w.refs);
	TraderShares::<Test>::insert(WHO, w.own);
	TraderShares::<Test>::insert(OTHER, any::<u128>("other_shares"));
	ReferrerShares::<Test>::insert(OTHER, 0);
	w
}
fn part(s: u128, reserve: u128, total: u128) -> u128 {
	multiply_by_rational_with_rounding(s, reserve, total, Rounding::Down).unwrap()
}
/// The claim pays the caller's part of `pot`, once. `None` when it is to be refused.
fn due(w: &Claim, pot: u128) -> Option<(u128, u128)> {
	if w.refs == 0 && w.own == 0 {
		return Some((0, 0));
	}
	let reserve = if pot > Seed::get() { pot - Seed::get() } else { 0 };
	let (a, b) = (part(w.refs, reserve, w.total), part(w.own, reserve, w.total));
	if a + b == 0 || w.refs + w.own == w.total || pot - a - b >= w.ed {
		Some((a, b))
	} else {
		None
	}
}
fn claimed(w: &Claim, pot0: u128, a: u128, b: u128) {
	let n = int(a) + int(b);
	check(int(Free::get(WHO, R)) == int(w.who) + n.clone(), "the claimant receives the part of the reserve of the shares");
	check(int(Free::get(pot(), R)) == int(pot0) - n, "the pot pays it");
	check(ReferrerShares::<Test>::get(WHO) == 0 && TraderShares::<Test>::get(WHO) == 0, "the shares are used up");
	check(int(TotalShares::<Test>::get()) == int(w.total) - int(w.refs) - int(w.own), "the shares of the others stay");
	check(TraderShares::<Test>::get(OTHER) == any::<u128>("other_shares"), "others keep their shares");
}
fn claim_changes_nothing(w: &Claim) {
	check(Free::get(WHO, R) == w.who && Free::get(pot(), R) == w.pot, "a refused claim pays nothing");
	check(ReferrerShares::<Test>::get(WHO) == w.refs && TraderShares::<Test>::get(WHO) == w.own && TotalShares::<Test>::get() == w.total, "a refused claim uses up no shares");
}
fn code(bytes: &[u8]) -> Code {
	bytes.to_vec().try_into().unwrap()
}
fn upper(c: u8) -> u8 {
	if (b'a'..=b'z').contains(&c) {
		c - 32
	} else {
		c
	}
}
fn allowed(c: u8) -> bool {
	either(both(c >= b'0', c <= b'9'), either(both(c >= b'A', c <= b'Z'), both(c >= b'a', c <= b'z')))
}
fn letters<const N: usize>(name: &'static str) -> [u8; N] {
	let c: [u8; N] = any(name);
	let mut i = 0;
	while i < N {
		assume(c[i] < 128);
		i += 1;
	}
	c
}
fn uppers<const N: usize>(c: [u8; N]) -> [u8; N] {
	let mut u = c;
	let mut i = 0;
	while i < N {
		u[i] = amount(&(int(c[i]) - int(ite(both(c[i] >= b'a', c[i] <= b'z'), 32, 0)))) as u8;
		i += 1;
	}
	u
}
fn all_allowed<const N: usize>(c: [u8; N]) -> bool {
	let mut b = true;
	let mut i = 0;
	while i < N {
		b = both(b, allowed(c[i]));
		i += 1;
	}
	b
}
fn equal<const N: usize>(c: [u8; N], d: [u8; N]) -> bool {
	let mut b = true;
	let mut i = 0;
	while i < N {
		b = both(b, c[i] == d[i]);
		i += 1;
	}
	b
}
fn registers<const N: usize>() {
	let c: [u8; N] = letters("code");
	let taken: [u8; N] = letters("taken");
	let has = any::<bool>("registered");
	let (x, y): (u128, u128) = (any("user"), any("beneficiary"));
	assume(int(x) + int(y) <= max128());
	Fee::put(any::<u128>("fee"));
	assume(equal(taken, uppers(taken)));
	Free::insert(WHO, R, x);
	Free::insert(TREASURY, R, y);
	ReferralCodes::<Test>::insert(code(&taken), OTHER);
	ReferralAccounts::<Test>::insert(OTHER, code(&taken));
	let old = code(b"MINE123");
	if has {
		ReferralAccounts::<Test>::insert(WHO, old.clone());
		ReferralCodes::<Test>::insert(old.clone(), WHO);
		Referrer::<Test>::insert(WHO, (Level::Tier3, 77));
	}
	let r = dispatch(|| P::register_code(Origin::signed(WHO), code(&c)));
	let u = uppers(c);
	if r.is_ok() {
		check(!has, "an account has one code");
		check(N >= 4, "a code is not too short");
		check(all_allowed(c), "a code has letters and digits only");
		check(!equal(u, taken), "a code is registered once, in any case of letters");
		check(int(Free::get(WHO, R)) == int(x) - int(Fee::get()) && int(Free::get(TREASURY, R)) == int(y) + int(Fee::get()), "the fee is paid");
		check(ReferralCodes::<Test>::get(code(&u)) == Some(WHO) && ReferralAccounts::<Test>::get(WHO) == Some(code(&u)), "the code is the account's, in upper case");
		check(Referrer::<Test>::get(WHO) == Some((Level::Tier0, 0)), "the account is a referrer of the first level");
	} else {
		check(has || N < 4 || !both(all_allowed(c), both(!equal(u, taken), x >= Fee::get())), "a free code that is paid for is registered");
		check(Free::get(WHO, R) == x && Free::get(TREASURY, R) == y, "a refused code costs nothing");
		check(Referrer::<Test>::get(WHO) == if has { Some((Level::Tier3, 77)) } else { None }, "a refused code makes no referrer");
		check(ReferralAccounts::<Test>::get(WHO) == if has { Some(old) } else { None }, "a refused code is not the account's");
	}
	check(ReferralCodes::<Test>::get(code(&taken)) == Some(OTHER) && ReferralAccounts::<Test>::get(OTHER) == Some(code(&taken)), "codes of others stay");
}
harness! {
	fn h_p14_fee_linked() {
		let w = before(A);
		let n = within::<u8>("level", 1, 5);
		let n = number(tier(n));
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(n, (0, r));
		link(n);
		decoys(n);
		handed_out(&w, A, r, true, 0);
	}
	fn h_p14_fee_linked_external() {
		let w = before(A);
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(3, (0, r));
		link(3);
		decoys(3);
		Ext::put(EXT);
		handed_out(&w, A, r, true, EXT);
	}
	fn h_p14_fee_asset_rates() {
		let w = before(A);
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(4, (0, (11, 12, 13)));
		link(4);
		decoys(4);
		AssetRewards::<Test>::insert(A, tier(4), dist(r));
		Ext::put(EXT);
		handed_out(&w, A, r, true, EXT);
	}
	fn h_p14_fee_unlinked() {
		let w = before(A);
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(0, (0, r));
		decoys(0);
		LinkedAccounts::<Test>::insert(SRC, REF);
		Referrer::<Test>::insert(REF, (Level::Tier2, 5));
		Ext::put(EXT);
		handed_out(&w, A, r, false, EXT);
	}
	fn h_p14_fee_external_trader() {
		let w = before(A);
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(0, (0, r));
		Ext::put(WHO);
		handed_out(&w, A, r, false, WHO);
	}
	fn h_p14_fee_reward_asset() {
		let w = before(R);
		let r = rates(["r_ref", "r_trader", "r_ext"]);
		Rates::insert(2, (0, r));
		link(2);
		handed_out(&w, R, r, true, 0);
	}
	fn h_p14_fee_no_price() {
		let w = before(A);
		Rates::insert(2, (0, rates(["r_ref", "r_trader", "r_ext"])));
		link(2);
		NoPrice::put(true);
		check(dispatch(|| P::process_trade_fee(SRC, WHO, A, w.amount)) == Ok(0), "without a price none of the fee is used");
		unchanged(&w, A);
		check(!PendingConversions::<Test>::contains_key(A), "and nothing is to be converted");
	}
	fn h_p14_claim() {
		let w = claimant();
		let want = due(&w, w.pot);
		let r = dispatch(|| P::claim_rewards(Origin::signed(WHO)));
		check(r.is_ok() == want.is_some(), "a claim is refused only if it would end the pot while others have shares");
		match want {
			Some((a, b)) => {
				claimed(&w, w.pot, a, b);
				let rest = int(w.pot) - int(a) - int(b);
				if a + b > 0 {
					check(rest.clone() >= int(Seed::get()), "the seed stays in the pot");
					let (r0, r1) = (int(w.pot) - int(Seed::get()), rest - int(Seed::get()));
					check(r1 * int(w.total) >= r0 * (int(w.total) - int(w.refs) - int(w.own)), "the part of the others does not shrink");
				}
			}
			None => claim_changes_nothing(&w),
		}
		check(Referrer::<Test>::get(WHO).is_none(), "a claim makes no referrer");
	}
	fn h_p14_claim_level() {
		let w = claimant();
		assume(w.refs > 0 && w.own == 0);
		let n = within::<u8>("level", 1, 5);
		let n = number(tier(n));
		let had: u128 = any("accumulated");
		let v: [u128; 4] = any("volumes");
		assume(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3]);
		let mut i = 0;
		while i < 4 {
			Rates::insert(i as u8 + 2, (v[i], (0, 0, 0)));
			i += 1;
		}
		Referrer::<Test>::insert(WHO, (tier(n), had));
		let want = due(&w, w.pot);
		let r = dispatch(|| P::claim_rewards(Origin::signed(WHO)));
		if r.is_ok() {
			let (a, _) = want.unwrap();
			assume(int(had) + int(a) <= max128());
			let (l, t) = Referrer::<Test>::get(WHO).unwrap();
			check(int(t) == int(had) + int(a), "the referrer's rewards add up");
			let mut reached = 1;
			let mut i = 0;
			while i < 4 {
				if t >= v[i] {
					reached = i as u8 + 2;
				}
				i += 1;
			}
			check(number(l) == if reached > n { reached } else { n }, "the level is the highest one reached, and never falls");
		} else {
			check(want.is_none(), "a claim is refused only if it would end the pot while others have shares");
			check(Referrer::<Test>::get(WHO) == Some((tier(n), had)), "a refused claim leaves the referrer");
		}
	}
	fn h_p14_claim_trader_level() {
		let w = claimant();
		let had: u128 = any("accumulated");
		assume(w.refs == 0 && w.own > 0);
		let mut i = 2;
		while i < 6 {
			Rates::insert(i as u8, (any_at::<u128>("volumes", i), (0, 0, 0)));
			assume(any_at::<u128>("volumes", i) > had);
			i += 1;
		}
		Referrer::<Test>::insert(WHO, (Level::Tier0, had));
		let _ = dispatch(|| P::claim_rewards(Origin::signed(WHO)));
		check(Referrer::<Test>::get(WHO) == Some((Level::Tier0, had)), "rewards of trading do not count for the level");
	}
	fn h_p14_claim_converts() {
		let w = claimant();
		let (x, p, got): (u128, u128, u128) = (any("pending"), any("pool"), any("got"));
		let o = within::<u8>("outcome", 0, 3);
		assume(int(w.pot) + int(w.who) + int(p) <= max128());
		assume(got <= p);
		Outcome::put(o);
		Got::put(got);
		Free::insert(POOL, R, p);
		Free::insert(pot(), A, x);
		PendingConversions::<Test>::insert(A, ());
		let with = if o == 0 { w.pot + got } else { w.pot };
		let want = if o == 3 { None } else { due(&w, with) };
		let r = dispatch(|| P::claim_rewards(Origin::signed(WHO)));
		check(r.is_ok() == want.is_some(), "a claim is refused if a conversion fails for other reasons than small amounts");
		match want {
			Some((a, b)) => {
				claimed(&w, with, a, b);
				check(!PendingConversions::<Test>::contains_key(A), "the asset is no longer to be converted");
				check(Free::get(pot(), A) == if o == 0 { 0 } else { x }, "all of the asset is converted");
			}
			None => {
				claim_changes_nothing(&w);
				check(PendingConversions::<Test>::contains_key(A) && Free::get(pot(), A) == x, "a refused claim converts nothing");
			}
		}
	}
	fn h_p14_convert() {
		let (x, y, p, got): (u128, u128, u128, u128) = (any("pot_a"), any("pot_r"), any("pool"), any("got"));
		let o = within::<u8>("outcome", 0, 3);
		let pending = any::<bool>("pending");
		assume(int(y) + int(p) <= max128() && got <= p);
		Outcome::put(o);
		Got::put(got);
		Free::insert(POOL, R, p);
		Free::insert(pot(), A, x);
		Free::insert(pot(), R, y);
		PendingConversions::<Test>::insert(B, ());
		if pending {
			PendingConversions::<Test>::insert(A, ());
		}
		let r = dispatch(|| P::convert(Origin::signed(WHO), A));
		check(r.is_ok() == (x > 0 && o == 0), "what there is of an asset is converted by anyone");
		if r.is_ok() {
			check(Free::get(pot(), A) == 0 && int(Free::get(pot(), R)) == int(y) + int(got), "all of it goes to the exchange, and its return to the pot");
			check(!PendingConversions::<Test>::contains_key(A), "the asset is no longer to be converted");
		} else {
			check(Free::get(pot(), A) == x && Free::get(pot(), R) == y && PendingConversions::<Test>::contains_key(A) == pending, "a refused conversion changes nothing");
		}
		check(PendingConversions::<Test>::contains_key(B), "other assets stay to be converted");
	}
	fn h_p14_idle() {
		let (x, y): (u128, u128) = (any("pot_a"), any("pot_b"));
		let (p, got): (u128, u128) = (any("pool"), any("got"));
		assume(int(got) + int(got) <= int(p));
		let weight: u64 = any("remaining");
		Outcome::put(within::<u8>("outcome", 0, 3));
		OutcomeB::put(within::<u8>("outcome_b", 0, 3));
		Got::put(got);
		Free::insert(POOL, R, p);
		Free::insert(pot(), A, x);
		Free::insert(pot(), B, y);
		PendingConversions::<Test>::insert(A, ());
		PendingConversions::<Test>::insert(B, ());
		let one = <() as pallet_referrals::WeightInfo>::convert().ref_time();
		assume(weight <= 3 * one);
		let _ = P::on_idle(5, Weight::from_parts(weight, u64::MAX));
		let n = Conversions::get();
		check(int(n) * int(one) <= int(weight), "no more is converted than there is time for");
		check(int(n) == int(2u32) || int(weight) < (int(n) + 1) * int(one), "and no less");
		let left = if PendingConversions::<Test>::contains_key(A) { 1 } else { 0 } + if PendingConversions::<Test>::contains_key(B) { 1 } else { 0 };
		check(left == 2 - n, "what was tried is no longer to be converted, and only that");
	}
	fn h_p14_register() {
		registers::<4>();
	}
	fn h_p14_register_long() {
		registers::<6>();
	}
	fn h_p14_register_short() {
		registers::<3>();
	}
	fn h_p14_link() {
		let c: [u8; 4] = letters("code");
		let known: [u8; 4] = letters("known");
		assume(equal(known, uppers(known)));
		let linked = any::<bool>("linked");
		let own = any::<bool>("own");
		let owner = if own { WHO } else { REF };
		ReferralCodes::<Test>::insert(code(&known), owner);
		ReferralCodes::<Test>::insert(code(b"OTHER"), OTHER);
		if linked {
			LinkedAccounts::<Test>::insert(WHO, OTHER);
		}
		LinkedAccounts::<Test>::insert(SRC, OTHER);
		let r = dispatch(|| P::link_code(Origin::signed(WHO), code(&c)));
		let found = equal(uppers(c), known);
		check(r.is_ok() == both(found, !own && !linked), "an account is linked once, to the account of a known code, not to itself");
		let l = LinkedAccounts::<Test>::get(WHO);
		check(l == if r.is_ok() { Some(REF) } else if linked { Some(OTHER) } else { None }, "it is linked to that account");
		check(LinkedAccounts::<Test>::get(SRC) == Some(OTHER), "others stay linked as they are");
	}
	fn h_p14_set_rates() {
		let root = any::<bool>("authority");
		let r = (within::<u32>("r_ref", 0, 1_000_000), within::<u32>("r_trader", 0, 1_000_000), within::<u32>("r_ext", 0, 1_000_000));
		AssetRewards::<Test>::insert(A, Level::Tier1, dist((1, 2, 3)));
		AssetRewards::<Test>::insert(A, Level::Tier2, dist((4, 5, 6)));
		AssetRewards::<Test>::insert(B, Level::Tier1, dist((7, 8, 9)));
		let ok = dispatch(|| P::set_reward_percentage(if root { Origin::root() } else { Origin::signed(WHO) }, A, Level::Tier1, dist(r))).is_ok();
		check(ok == both(root, int(r.0) + int(r.1) + int(r.2) <= int(1_000_000u32)), "the authority sets rates of up to the whole fee");
		check(AssetRewards::<Test>::get(A, Level::Tier1) == Some(if ok { dist(r) } else { dist((1, 2, 3)) }), "the rates are as set");
		check(AssetRewards::<Test>::get(A, Level::Tier2) == Some(dist((4, 5, 6))) && AssetRewards::<Test>::get(B, Level::Tier1) == Some(dist((7, 8, 9))), "other rates stay");
	}
}
