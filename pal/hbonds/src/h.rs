use frame_support::pallet_prelude::*;
use frame_support::traits::Contains;
use frame_support::PalletId;
use hrt::*;
use hydradx_traits::AssetKind;
use orml_traits::GetByKey;
use pallet_bonds::{BondIds, Bonds, Config, Pallet};
use sp_runtime::Permill;
use symx::*;

hrt::runtime!(pallet_bonds);
hrt::cells! {
	CFee FeeParts: u32 = 100;
}
hrt::gets! {
	GFee: Permill = Permill::from_parts(FeeParts::get());
	Receiver: AccountId = FEE;
	Id: PalletId = PalletId(*b"pltbonds");
}
pub struct Eds;
impl GetByKey<AssetId, Balance> for Eds {
	fn get(_: &AssetId) -> Balance {
		0
	}
}
pub struct Kind;
impl Contains<AssetKind> for Kind {
	fn contains(k: &AssetKind) -> bool {
		matches!(k, AssetKind::Token | AssetKind::XYK)
	}
}
impl Config for Test {
	type RuntimeEvent = Ev;
	type Balance = Balance;
	type Currency = Ledger;
	type AssetRegistry = Registry;
	type ExistentialDeposits = Eds;
	type TimestampProvider = Clock;
	type PalletId = Id;
	type IssueOrigin = frame_system::EnsureSigned<AccountId>;
	type AssetTypeWhitelist = Kind;
	type ProtocolFee = GFee;
	type FeeReceiver = Receiver;
	type WeightInfo = ();
}
const A: AssetId = 2;
const BOND: AssetId = 40;
const OTHER: AssetId = 41;
const WHO: AccountId = 7;
const FEE: AccountId = 8;

struct World {
	pot: u128,
	who: u128,
	fee: u128,
	issued: u128,
	other: u128,
	held: u128,
	maturity: u64,
	when: u64,
	now: u64,
}
fn pot() -> AccountId {
	Pallet::<Test>::pallet_account_id()
}
/// Two bonds on one asset, backed: the pallet holds at least all that was issued.
fn world(registered: bool) -> World {
	let w = World {
		pot: any("pot"),
		who: any("user"),
		fee: any("fee_receiver"),
		issued: any("issued"),
		other: any("other_issued"),
		held: any("user_bonds"),
		maturity: any("maturity"),
		when: any("other_maturity"),
		now: any("now"),
	};
	assume(int(w.pot) + int(w.who) + int(w.fee) <= max128());
	assume(int(w.pot) >= int(w.issued) + int(w.other));
	assume(w.held <= w.issued);
	assume(w.maturity != w.when);
	FeeParts::put(within::<u32>("fee", 0, 1_000_000));
	Now::put(w.now);
	Kinds::insert(A, 1);
	NextAsset::put(BOND);
	Bonds::<Test>::insert(OTHER, (A, w.when));
	BondIds::<Test>::insert((A, w.when), OTHER);
	Issuance::insert(OTHER, w.other);
	if registered {
		Bonds::<Test>::insert(BOND, (A, w.maturity));
		BondIds::<Test>::insert((A, w.maturity), BOND);
		Issuance::insert(BOND, w.issued);
		Free::insert(WHO, BOND, w.held);
	} else {
		assume(w.issued == 0);
	}
	Free::insert(pot(), A, w.pot);
	Free::insert(WHO, A, w.who);
	Free::insert(FEE, A, w.fee);
	w
}
fn backed() {
	check(int(Free::get(pot(), A)) >= int(Issuance::get(BOND)) + int(Issuance::get(OTHER)), "all bonds issued are backed");
}
fn nothing_happened(w: &World) {
	check(Free::get(pot(), A) == w.pot && Free::get(WHO, A) == w.who && Free::get(FEE, A) == w.fee, "a refused call moves nothing");
	check(Free::get(WHO, BOND) == w.held && Issuance::get(BOND) == w.issued, "a refused call issues nothing");
}
harness! {
	fn h_p06_issue() {
		let registered = any::<bool>("registered");
		let w = world(registered);
		let x: u128 = any("amount");
		if dispatch(|| Pallet::<Test>::issue(Origin::signed(WHO), A, x, w.maturity)).is_ok() {
			let fee = int(Free::get(FEE, A)) - int(w.fee);
			let bonds = int(Free::get(WHO, BOND)) - int(w.held);
			check(is_ceil(fee.clone(), int(x) * int(FeeParts::get()), int(1_000_000u32)), "the fee is the rate of the amount, rounded up");
			check(bonds.clone() + fee == int(x), "the rest is issued as bonds");
			check(int(Free::get(WHO, A)) == int(w.who) - int(x), "the issuer pays the amount");
			check(int(Free::get(pot(), A)) == int(w.pot) + bonds.clone(), "the underlying asset is kept");
			check(int(Issuance::get(BOND)) == int(w.issued) + bonds, "issuance grows by the bonds");
			check(Issuance::get(OTHER) == w.other, "other bonds are not affected");
			check(Bonds::<Test>::get(BOND) == Some((A, w.maturity)) && BondIds::<Test>::get((A, w.maturity)) == Some(BOND), "the bond is known by asset and maturity");
			check(registered || w.maturity >= w.now, "no new bond that matured before");
			backed();
		} else {
			check(!registered || x > w.who || int(w.pot) + int(x) > max128() || int(w.fee) + int(x) > max128(), "an existing bond can be issued again by who can pay");
		}
	}
	fn h_p06_refused() {
		let w = world(false);
		let kind: u8 = any("kind");
		assume(kind != 1 && kind != 2);
		Kinds::insert(A, kind);
		let r = dispatch(|| Pallet::<Test>::issue(Origin::signed(WHO), A, any("amount"), w.maturity));
		check(r.is_err(), "only allowed kinds of assets back bonds");
		nothing_happened(&w);
	}
	fn h_p06_redeem() {
		let w = world(true);
		let x: u128 = any("amount");
		if dispatch(|| Pallet::<Test>::redeem(Origin::signed(WHO), BOND, x)).is_ok() {
			check(w.now >= w.maturity, "no bond is redeemed before maturity");
			check(int(Free::get(WHO, A)) == int(w.who) + int(x), "bonds are redeemed one to one");
			check(int(Free::get(pot(), A)) == int(w.pot) - int(x), "the underlying asset is released");
			check(int(Free::get(WHO, BOND)) == int(w.held) - int(x), "exactly the redeemed bonds are burnt");
			check(int(Issuance::get(BOND)) == int(w.issued) - int(x), "issuance falls by the redeemed bonds");
			check(Issuance::get(OTHER) == w.other && Free::get(FEE, A) == w.fee, "nothing else moves");
			backed();
		} else {
			check(w.now < w.maturity || x > w.held, "a mature bond can always be redeemed by its holder");
			nothing_happened(&w);
		}
	}
	fn h_p06_unknown() {
		let w = world(true);
		let id: u32 = any("asset");
		assume(id != BOND && id != OTHER);
		Issuance::insert(id, any::<u128>("issuance"));
		Free::insert(WHO, id, any::<u128>("balance"));
		if id != A {
			check(dispatch(|| Pallet::<Test>::redeem(Origin::signed(WHO), id, any("amount"))).is_err(), "only bonds are redeemed");
			nothing_happened(&w);
		}
	}
}
