use frame_support::pallet_prelude::*;
use hrt::*;
use pallet_collator_rewards::{Collators, Config, Pallet};
use pallet_session::SessionManager;
use symx::*;

hrt::runtime!(pallet_collator_rewards);
hrt::cells! {
	CPrize Prize: u128 = 100;
	CEx8 Out8: bool = 101;
	CEx9 Out9: bool = 102;
	CNew Chosen: Option<Vec<AccountId>> = 103;
	CAsked Asked: Vec<(u8, u32)> = 104;
}
hrt::gets! {
	GPrize: u128 = Prize::get();
	GCoin: AssetId = N;
	GOut: Vec<AccountId> = { let mut v = vec![]; if Out9::get() { v.push(9); } if Out8::get() { v.push(8); } v };
}
/// The manager the pallet wraps.
pub struct Inner;
impl SessionManager<AccountId> for Inner {
	fn new_session(i: u32) -> Option<Vec<AccountId>> {
		Asked::mutate(|a| a.push((0, i)));
		Chosen::get()
	}
	fn start_session(i: u32) {
		Asked::mutate(|a| a.push((1, i)));
	}
	fn end_session(i: u32) {
		Asked::mutate(|a| a.push((2, i)));
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type Balance = Balance;
	type CurrencyId = AssetId;
	type Currency = Ledger;
	type RewardPerCollator = GPrize;
	type RewardCurrencyId = GCoin;
	type ExcludedCollators = GOut;
	type SessionManager = Inner;
	type MaxCandidates = ConstU32<3>;
}
const N: AssetId = 0;
const I: u32 = 5;
type P = Pallet<Test>;

/// up to `most` collators out of 7, 8 and 9, some perhaps twice
fn some(most: usize) -> Vec<AccountId> {
	let mut v = vec![];
	let mut i = 0;
	while i < most && any_at::<bool>("one_more", i) {
		v.push(within_at(i));
		i += 1;
	}
	v
}
fn within_at(i: usize) -> AccountId {
	let x: u64 = any_at("collator", i);
	assume(x >= 7);
	assume(x <= 9);
	if x == 7 {
		7
	} else if x == 8 {
		8
	} else {
		9
	}
}
fn count(v: &Vec<AccountId>, x: AccountId) -> u128 {
	let mut n = 0;
	let mut i = 0;
	while i < v.len() {
		if v[i] == x {
			n += 1;
		}
		i += 1;
	}
	n
}
fn world() -> [u128; 4] {
	Prize::put(any::<u128>("reward"));
	Out8::put(any::<bool>("out8"));
	Out9::put(any::<bool>("out9"));
	let b: [u128; 4] = [any("b7"), any("b8"), any("b9"), any("issued")];
	Free::insert(7, N, b[0]);
	Free::insert(8, N, b[1]);
	Free::insert(9, N, b[2]);
	Issuance::insert(N, b[3]);
	b
}
harness! {
	fn h_p17_end() {
		let b = world();
		let list = some(3);
		let other: Vec<AccountId> = vec![8, 7];
		Collators::<Test>::insert(I, BoundedVec::try_from(list.clone()).unwrap());
		Collators::<Test>::insert(I + 1, BoundedVec::try_from(other.clone()).unwrap());
		let p = Prize::get();
		assume(int(b[3]) + int(p) * int(3u128) <= max128());
		assume(int(b[0]) + int(p) * int(3u128) <= max128());
		assume(int(b[1]) + int(p) * int(3u128) <= max128());
		assume(int(b[2]) + int(p) * int(3u128) <= max128());
		P::end_session(I);
		let n7 = count(&list, 7);
		let n8 = if Out8::get() { 0 } else { count(&list, 8) };
		let n9 = if Out9::get() { 0 } else { count(&list, 9) };
		check(int(Free::get(7, N)) == int(b[0]) + int(p) * int(n7), "a collator of the session gets the reward");
		check(int(Free::get(8, N)) == int(b[1]) + int(p) * int(n8), "a collator that is not excluded gets the reward, others nothing");
		check(int(Free::get(9, N)) == int(b[2]) + int(p) * int(n9), "an excluded collator gets nothing");
		check(int(Issuance::get(N)) == int(b[3]) + int(p) * int(n7 + n8 + n9), "as much is created as is paid");
		check(!Collators::<Test>::contains_key(I), "the list of the session is removed");
		check(Collators::<Test>::get(I + 1).into_inner() == other, "the lists of other sessions stay");
		check(Asked::get() == vec![(2, I)], "the inner manager ends the session too");
		let now = Free::get(7, N);
		P::end_session(I);
		check(Free::get(7, N) == now, "a session is rewarded once");
	}
	fn h_p17_end_full() {
		// the ledger refuses some of the rewards
		let b = world();
		Out8::put(false);
		let p = Prize::get();
		Collators::<Test>::insert(I, BoundedVec::try_from(vec![7, 8]).unwrap());
		P::end_session(I);
		let ok1 = int(b[3]) + int(p) <= max128() && int(b[0]) + int(p) <= max128();
		let ok2 = int(b[3]) + int(p) + int(if ok1 { p } else { 0 }) <= max128() && int(b[1]) + int(p) <= max128();
		check(int(Free::get(7, N)) == int(b[0]) + int(if ok1 { p } else { 0 }), "a reward that can be paid is paid");
		check(int(Free::get(8, N)) == int(b[1]) + int(if ok2 { p } else { 0 }), "a reward that can be paid is paid after one that cannot");
		check(!Collators::<Test>::contains_key(I), "the list of the session is removed");
	}
	fn h_p17_new() {
		let list = some(4);
		let b = world();
		if any::<bool>("chosen") {
			Chosen::put(Some(list.clone()));
		}
		let old: Vec<AccountId> = vec![9];
		Collators::<Test>::insert(I - 1, BoundedVec::try_from(old.clone()).unwrap());
		let r = P::new_session(I);
		let fits = list.len() <= 3;
		let set = Chosen::get().is_some();
		check(r == if set && fits { Some(list.clone()) } else { None }, "the session gets the collators the inner manager chose");
		check(Collators::<Test>::contains_key(I) == (set && fits), "they are noted for rewards");
		if set && fits {
			check(Collators::<Test>::get(I).into_inner() == list, "the same collators are noted");
		}
		check(Collators::<Test>::get(I - 1).into_inner() == old, "earlier sessions keep theirs");
		check(Asked::get() == vec![(0, I)], "the inner manager is asked about the session");
		check(Free::get(7, N) == b[0] && Issuance::get(N) == b[3], "nothing is paid");
	}
	fn h_p17_start() {
		world();
		Collators::<Test>::insert(I, BoundedVec::try_from(vec![9]).unwrap());
		let i: u32 = any("session");
		P::start_session(i);
		check(Asked::get() == vec![(1, i)], "the inner manager starts the session");
		check(Collators::<Test>::get(I).into_inner() == vec![9], "the lists stay");
	}
}
