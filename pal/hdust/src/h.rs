use frame_support::pallet_prelude::*;
use frame_support::traits::Contains;
use hrt::*;
use hydradx_traits::pools::DustRemovalAccountWhitelist;
use orml_traits::currency::OnDust;
use orml_traits::MultiCurrency;
use pallet_duster::{AccountBlacklist, Config, DustAccount, DusterWhitelist, Pallet, RewardAccount};
use symx::*;

hrt::runtime!(pallet_duster);
hrt::cells! {
	CReward Prize: u128 = 100;
}
hrt::gets! {
	GReward: u128 = Prize::get();
	GNative: AssetId = N;
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type Balance = Balance;
	type Amount = i128;
	type CurrencyId = AssetId;
	type MultiCurrency = Ledger;
	type MinCurrencyDeposits = Registry;
	type Reward = GReward;
	type NativeCurrencyId = GNative;
	type BlacklistUpdateOrigin = frame_system::EnsureRoot<AccountId>;
	type WeightInfo = ();
}
const N: AssetId = 0;
const A: AssetId = 2;
const WHO: AccountId = 7;
const ACC: AccountId = 8;
const DEST: AccountId = 9;
const PURSE: AccountId = 10;
const OTHER: AccountId = 11;
type P = Pallet<Test>;

struct World {
	ed: u128,
	free: u128,
	held: u128,
	safe: bool,
	dest: u128,
	purse: u128,
	who: u128,
	other: u128,
}
fn world(c: AssetId) -> World {
	let w = World { ed: any("ed"), free: any("free"), held: any("reserved"), safe: any("excluded"), dest: any("dest"), purse: any("purse"), who: any("user"), other: any("other") };
	assume(int(w.free) + int(w.held) + int(w.dest) + int(w.purse) + int(w.who) + int(w.other) <= max128());
	Prize::put(any::<u128>("reward"));
	Deposits::insert(c, w.ed);
	Free::insert(ACC, c, w.free);
	Reserved::insert(ACC, c, w.held);
	Free::insert(DEST, c, w.dest);
	Free::insert(PURSE, N, w.purse);
	Free::insert(WHO, N, w.who);
	Free::insert(OTHER, c, w.other);
	if w.safe {
		AccountBlacklist::<Test>::insert(ACC, ());
	}
	AccountBlacklist::<Test>::insert(OTHER, ());
	AccountBlacklist::<Test>::insert(DEST, ());
	DustAccount::<Test>::put(DEST);
	RewardAccount::<Test>::put(PURSE);
	w
}
fn dust(w: &World, c: AssetId, caller: AccountId) {
	let r = dispatch(|| P::dust_account(Origin::signed(caller), ACC, c));
	let total = int(w.free) + int(w.held);
	let ok = !w.safe && w.held == 0 && w.free > 0 && total < int(w.ed);
	check(r.is_ok() == ok, "what is below the existential deposit is dusted unless the account is excluded, nothing else");
	let paid = if ok && Prize::get() <= w.purse { Prize::get() } else { 0 };
	let gone = if ok { w.free } else { 0 };
	let back = if caller == ACC && c == N { paid } else { 0 };
	check(int(Free::get(ACC, c)) == int(w.free) - int(gone) + int(back) && Reserved::get(ACC, c) == w.held, "all the dust leaves the account, and only dust");
	check(int(Free::get(DEST, c)) == int(w.dest) + int(gone), "the dust goes to its account");
	check(int(Free::get(PURSE, N)) == int(w.purse) - int(paid), "the reward is paid if there is enough for it");
	if caller == WHO {
		check(int(Free::get(WHO, N)) == int(w.who) + int(paid), "the caller receives the reward");
	}
	check(Free::get(OTHER, c) == w.other, "other accounts keep their balances");
	check(AccountBlacklist::<Test>::contains_key(ACC) == w.safe && AccountBlacklist::<Test>::contains_key(OTHER), "the list of excluded accounts stays");
}
harness! {
	fn h_p15_dust() {
		let w = world(A);
		dust(&w, A, WHO);
	}
	fn h_p15_dust_native() {
		let w = world(N);
		dust(&w, N, WHO);
	}
	fn h_p15_dust_self() {
		let w = world(A);
		dust(&w, A, ACC);
	}
	fn h_p15_on_dust() {
		let w = world(A);
		let x: u128 = any("dust");
		<P as OnDust<AccountId, AssetId, Balance>>::on_dust(&ACC, A, x);
		let ok = x <= w.free;
		check(int(Free::get(ACC, A)) == int(w.free) - int(if ok { x } else { 0 }) && int(Free::get(DEST, A)) == int(w.dest) + int(if ok { x } else { 0 }), "dust the ledger reports goes to its account");
		check(Free::get(PURSE, N) == w.purse, "without a reward");
	}
	fn h_p15_list() {
		let w = world(A);
		let root = any::<bool>("authority");
		let o = || if root { Origin::root() } else { Origin::signed(WHO) };
		let a = dispatch(|| P::add_nondustable_account(o(), ACC)).is_ok();
		check(a == root, "the authority alone excludes accounts");
		let now = w.safe || root;
		check(DusterWhitelist::<Test>::contains(&ACC) == now, "the account is excluded");
		let r = dispatch(|| P::remove_nondustable_account(o(), ACC)).is_ok();
		check(r == root, "the authority alone ends it");
		check(DusterWhitelist::<Test>::contains(&ACC) == (now && !root), "the account is no longer excluded");
		check(DusterWhitelist::<Test>::contains(&OTHER), "other accounts stay excluded");
	}
	fn h_p15_list_missing() {
		let w = world(A);
		let r = dispatch(|| P::remove_nondustable_account(Origin::root(), ACC)).is_ok();
		check(r == w.safe, "only excluded accounts can be taken from the list");
		check(!DusterWhitelist::<Test>::contains(&ACC) && DusterWhitelist::<Test>::contains(&OTHER), "and only they are taken");
	}
	fn h_p15_pools() {
		let w = world(A);
		check(<P as DustRemovalAccountWhitelist<AccountId>>::add_account(&ACC).is_ok(), "pools exclude their accounts");
		check(DusterWhitelist::<Test>::contains(&ACC), "the account of the pool is excluded");
		check(dispatch(|| P::dust_account(Origin::signed(WHO), ACC, A)).is_err(), "and not dusted");
		check(dispatch(|| <P as DustRemovalAccountWhitelist<AccountId>>::remove_account(&ACC)).is_ok(), "pools end it");
		check(!DusterWhitelist::<Test>::contains(&ACC), "the account of the pool is no longer excluded");
		check(dispatch(|| <P as DustRemovalAccountWhitelist<AccountId>>::remove_account(&ACC)).is_err(), "but once");
		w.safe;
	}
}
