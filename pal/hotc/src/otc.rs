use frame_support::pallet_prelude::*;
use hrt::*;
use orml_traits::GetByKey;
use pallet_otc::{Order, Orders, Pallet};
use symx::*;

hrt::runtime!(pallet_otc);
pub struct Eds;
impl GetByKey<AssetId, Balance> for Eds {
	fn get(k: &AssetId) -> Balance {
		ED::get(k)
	}
}
hrt::gets! { EdMul: u8 = MUL::get(); }
pub struct PEd;
impl frame_support::storage::StorageInstance for PEd {
	fn id() -> u64 {
		100
	}
}
pub struct PMul;
impl frame_support::storage::StorageInstance for PMul {
	fn id() -> u64 {
		101
	}
}
type ED = StorageMap<PEd, Identity, AssetId, Balance, ValueQuery>;
type MUL = StorageValue<PMul, u8, ValueQuery>;
impl pallet_otc::Config for Test {
	type AssetId = AssetId;
	type AssetRegistry = Registry;
	type Currency = Ledger;
	type RuntimeEvent = Ev;
	type ExistentialDeposits = Eds;
	type ExistentialDepositMultiplier = EdMul;
	type WeightInfo = ();
}

const OWNER: AccountId = 1;
const TAKER: AccountId = 2;
const OTHER: AccountId = 3;
const IN: AssetId = 10;
const OUT: AssetId = 11;

struct World {
	ain: u128,
	aout: u128,
	part: bool,
	reserved: u128,
	owner_in: u128,
	owner_out: u128,
	taker_in: u128,
	taker_out: u128,
}
fn world() -> World {
	let w = World {
		ain: any("order_in"),
		aout: any("order_out"),
		part: any::<u8>("partial") == 1,
		reserved: any("reserved"),
		owner_in: any("owner_in"),
		owner_out: any("owner_out"),
		taker_in: any("taker_in"),
		taker_out: any("taker_out"),
	};
	// every open order is backed by the reservation; the issuance of an asset fits a balance
	assume(w.reserved >= w.aout);
	assume(int(w.owner_in) + int(w.taker_in) <= int(u128::MAX));
	assume(int(w.owner_out) + int(w.taker_out) + int(w.reserved) <= int(u128::MAX));
	ED::insert(IN, any::<u128>("ed_in"));
	ED::insert(OUT, any::<u128>("ed_out"));
	MUL::put(any::<u8>("ed_mul"));
	Free::insert(OWNER, IN, w.owner_in);
	Free::insert(OWNER, OUT, w.owner_out);
	Free::insert(TAKER, IN, w.taker_in);
	Free::insert(TAKER, OUT, w.taker_out);
	Reserved::insert(OWNER, OUT, w.reserved);
	Orders::<Test>::insert(7u32, Order { owner: OWNER, asset_in: IN, asset_out: OUT, amount_in: w.ain, amount_out: w.aout, partially_fillable: w.part });
	w
}

harness! {
	fn h_p01_partial_fill() {
		let w = world();
		let a: u128 = any("amount");
		if dispatch(|| Pallet::<Test>::partial_fill_order(Origin::signed(TAKER), 7, a)).is_ok() {
			check(w.part, "only partially fillable orders are filled in part");
			let o = Orders::<Test>::get(7u32);
			check(o.is_some(), "the order stays open");
			let o = o.unwrap();
			let paid = int(w.ain) - int(o.amount_in);
			let got = int(w.aout) - int(o.amount_out);
			check(paid == int(a), "the order shrinks by what is paid");
			check(got.clone() * int(w.ain) <= int(w.aout) * int(a), "the taker never gets a better price than the order's");
			check((got.clone() + int(1)) * int(w.ain) > int(w.aout) * int(a), "rounding costs the taker less than a unit");
			check(int(o.amount_out) * int(w.ain) >= int(w.aout) * int(o.amount_in), "the rest never gets worse for the owner");
			check(int(Free::get(TAKER, IN)) == int(w.taker_in) - paid.clone(), "taker pays");
			check(int(Free::get(OWNER, IN)) == int(w.owner_in) + paid, "owner is paid");
			check(int(Free::get(TAKER, OUT)) == int(w.taker_out) + got.clone(), "taker receives");
			check(Free::get(OWNER, OUT) == w.owner_out, "owner's free balance is untouched");
			check(int(Reserved::get(OWNER, OUT)) == int(w.reserved) - got, "the reservation shrinks by what is received");
			let m = int(MUL::get() as u128);
			check(int(o.amount_in) >= int(ED::get(IN)) * m.clone(), "what is left to pay is not dust");
			check(int(o.amount_out) >= int(ED::get(OUT)) * m, "what is left to receive is not dust");
			check(o.owner == OWNER && o.asset_in == IN && o.asset_out == OUT && o.partially_fillable, "the terms stay");
		}
	}
	fn h_p01_fill() {
		let w = world();
		if dispatch(|| Pallet::<Test>::fill_order(Origin::signed(TAKER), 7)).is_ok() {
			check(Orders::<Test>::get(7u32).is_none(), "a filled order is closed");
			check(int(Free::get(TAKER, IN)) == int(w.taker_in) - int(w.ain), "taker pays the order amount");
			check(int(Free::get(OWNER, IN)) == int(w.owner_in) + int(w.ain), "owner is paid the order amount");
			check(int(Free::get(TAKER, OUT)) == int(w.taker_out) + int(w.aout), "taker receives the order amount");
			check(Free::get(OWNER, OUT) == w.owner_out, "owner's free balance is untouched");
			check(int(Reserved::get(OWNER, OUT)) == int(w.reserved) - int(w.aout), "the reservation is used up");
		} else {
			check(w.taker_in < w.ain, "an order is refused only if the taker cannot pay");
		}
	}
	fn h_p01_cancel() {
		let w = world();
		let who: u64 = any("who");
		if dispatch(|| Pallet::<Test>::cancel_order(Origin::signed(who), 7)).is_ok() {
			check(who == OWNER, "only the owner cancels");
			check(Orders::<Test>::get(7u32).is_none(), "a cancelled order is closed");
			check(int(Free::get(OWNER, OUT)) == int(w.owner_out) + int(w.aout), "the owner gets the rest back");
			check(int(Reserved::get(OWNER, OUT)) == int(w.reserved) - int(w.aout), "its reservation is released");
		} else {
			check(who != OWNER, "the owner can always cancel");
		}
		check(Free::get(OWNER, IN) == w.owner_in, "no payment");
		check(Free::get(TAKER, OUT) == w.taker_out, "nobody else gains");
	}
	fn h_p01_place() {
		let (a, b): (u128, u128) = (any("amount_in"), any("amount_out"));
		let (free, reserved): (u128, u128) = (any("free"), any("reserved"));
		assume(int(free) + int(reserved) <= int(u128::MAX));
		ED::insert(IN, any::<u128>("ed_in"));
		ED::insert(OUT, any::<u128>("ed_out"));
		MUL::put(any::<u8>("ed_mul"));
		Free::insert(OWNER, OUT, free);
		Reserved::insert(OWNER, OUT, reserved);
		let next: u32 = any("next");
		pallet_otc::NextOrderId::<Test>::put(next);
		let part = any::<u8>("partial") == 1;
		if dispatch(|| Pallet::<Test>::place_order(Origin::signed(OWNER), IN, OUT, a, b, part)).is_ok() {
			let o = Orders::<Test>::get(next);
			check(o.is_some(), "order is open");
			let o = o.unwrap();
			check(o.owner == OWNER && o.asset_in == IN && o.asset_out == OUT, "owner and assets");
			check(o.amount_in == a && o.amount_out == b && o.partially_fillable == part, "amounts");
			check(pallet_otc::NextOrderId::<Test>::get() == next + 1, "identifiers are not reused");
			check(int(Free::get(OWNER, OUT)) == int(free) - int(b), "the amount leaves the free balance");
			check(int(Reserved::get(OWNER, OUT)) == int(reserved) + int(b), "the order is backed by a reservation");
			let m = int(MUL::get() as u128);
			check(int(a) >= int(ED::get(IN)) * m.clone(), "not dust in");
			check(int(b) >= int(ED::get(OUT)) * m, "not dust out");
		}
	}
}
