use frame_support::pallet_prelude::*;
use frame_support::traits::{CallMetadata, Contains, GetCallMetadata};
use hrt::*;
use pallet_transaction_pause::{BoundedName, Config, Pallet, PausedTransactionFilter, PausedTransactions};
use symx::*;

pub struct Call(&'static str, &'static str);
impl GetCallMetadata for Call {
	fn get_call_metadata(&self) -> CallMetadata {
		CallMetadata { pallet_name: self.0, function_name: self.1 }
	}
}
hrt::runtime!(call Call; pallet_transaction_pause);
impl Config for Test {
	type RuntimeEvent = Ev;
	type UpdateOrigin = frame_system::EnsureRoot<AccountId>;
	type WeightInfo = ();
}
type P = Pallet<Test>;
const LONG: &str = "abcdefghijabcdefghijabcdefghijabcdefghijk";
const FULL: &str = "abcdefghijabcdefghijabcdefghijabcdefghij";
const PALLETS: [&str; 6] = ["Omnipool", "Omnipoo", "XYK", "Pallet", FULL, LONG];
const CALLS: [&str; 4] = ["sell", "buy", FULL, LONG];

fn pick(n: &'static str, most: u8) -> usize {
	let k: u8 = any(n);
	assume(k < most);
	let mut i = 0;
	while i < most {
		if k == i {
			return i as usize;
		}
		i += 1;
	}
	0
}
fn name(s: &str) -> BoundedName {
	BoundedName::try_from(s.as_bytes().to_vec()).unwrap()
}
fn paused(p: &'static str, f: &'static str) -> bool {
	PausedTransactionFilter::<Test>::contains(&Call(p, f))
}
fn caller(root: bool) -> Origin {
	if root {
		Origin::root()
	} else {
		Origin::signed(7)
	}
}
harness! {
	fn h_p20_pause() {
		let (p, f) = (PALLETS[pick("pallet", 6)], CALLS[pick("call", 4)]);
		let before = any::<bool>("paused");
		if before {
			PausedTransactions::<Test>::insert((name("Omnipool"), name("sell")), ());
		}
		let root = any::<bool>("authority");
		let r = dispatch(|| P::pause_transaction(caller(root), p.as_bytes().to_vec(), f.as_bytes().to_vec()));
		let ok = root && p.len() <= 40 && f.len() <= 40 && p != "Pallet";
		check(r.is_ok() == ok, "the authority alone pauses, and anything but pausing itself");
		let mut i = 0;
		while i < 6 {
			let mut j = 0;
			while j < 4 {
				let hit = ok && PALLETS[i] == p && CALLS[j] == f;
				check(paused(PALLETS[i], CALLS[j]) == (hit || (before && i == 0 && j == 0)), "the call is paused, and no other");
				j += 1;
			}
			i += 1;
		}
	}
	fn h_p20_unpause() {
		let (p, f) = (PALLETS[pick("pallet", 6)], CALLS[pick("call", 4)]);
		PausedTransactions::<Test>::insert((name("Omnipool"), name("sell")), ());
		PausedTransactions::<Test>::insert((name("XYK"), name("sell")), ());
		PausedTransactions::<Test>::insert((name(FULL), name(FULL)), ());
		let root = any::<bool>("authority");
		let r = dispatch(|| P::unpause_transaction(caller(root), p.as_bytes().to_vec(), f.as_bytes().to_vec()));
		let ok = root && p.len() <= 40 && f.len() <= 40;
		check(r.is_ok() == ok, "the authority alone ends a pause");
		let mut i = 0;
		while i < 6 {
			let mut j = 0;
			while j < 4 {
				let was = (i == 0 && j == 0) || (i == 2 && j == 0) || (i == 4 && j == 2);
				let hit = ok && PALLETS[i] == p && CALLS[j] == f;
				check(paused(PALLETS[i], CALLS[j]) == (was && !hit), "the call runs again, others stay as they are");
				j += 1;
			}
			i += 1;
		}
	}
	fn h_p20_text() {
		let bad: Vec<u8> = vec![b'X', 0xff];
		let r = dispatch(|| P::pause_transaction(Origin::root(), bad, b"sell".to_vec()));
		check(r.is_err(), "names that are no text are refused");
		check(PausedTransactions::<Test>::iter().count() == 0, "nothing is paused");
	}
}
