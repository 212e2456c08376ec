use hydra_dx_math::lbp::*;
use hydra_dx_math::MathError;
use sp_arithmetic::FixedU128;
use symx::*;

const E18: u128 = 1_000_000_000_000_000_000;
fn p256() -> Int {
	(int(u128::MAX) + 1) * (int(u128::MAX) + 1)
}

harness! {
	// ---- M30: weights
	fn h_m30_weights() {
		let (sx, ex, at): (u32, u32, u32) = (any("start"), any("end"), any("at"));
		let (sy, ey): (u32, u32) = (any("initial"), any("final"));
		match calculate_linear_weights(sx, ex, sy, ey, at) {
			Ok(w) => {
				observe("w", w as u128);
				check(both(sx <= at, at <= ex), "outside of the interval refused");
				check(sx < ex, "empty interval refused");
				check(is_floor(int(w), int(sy) * (int(ex) - int(at)) + int(ey) * (int(at) - int(sx)), int(ex) - int(sx)), "linear interpolation");
				check(implies(at == sx, w == sy), "starts at the initial weight");
				check(implies(at == ex, w == ey), "ends at the final weight");
				check(both(w >= min32(sy, ey), w <= max32(sy, ey)), "between both weights");
			}
			Err(_) => check(either(either(at < sx, at > ex), sx == ex), "defined in the interval"),
		}
	}
	fn h_m30_weights_64() {
		let (sx, ex, at): (u64, u64, u64) = (any("start"), any("end"), any("at"));
		let (sy, ey): (u32, u32) = (any("initial"), any("final"));
		match calculate_linear_weights(sx, ex, sy, ey, at) {
			Ok(w) => {
				check(both(both(sx <= at, at <= ex), sx < ex), "outside of the interval refused");
				check(is_floor(int(w), int(sy) * (int(ex) - int(at)) + int(ey) * (int(at) - int(sx)), int(ex) - int(sx)), "linear interpolation");
			}
			Err(_) => check(either(either(at < sx, at > ex), either(sx == ex, (int(ex) - int(sx)).gt(&int(u32::MAX)))), "defined in the interval"),
		}
	}
	fn h_m30_monotone() {
		let (sx, ex, at, bt): (u32, u32, u32, u32) = (any("start"), any("end"), any("at"), any("later"));
		let (sy, ey): (u32, u32) = (any("initial"), any("final"));
		assume(at <= bt);
		if let (Ok(v), Ok(w)) = (calculate_linear_weights(sx, ex, sy, ey, at), calculate_linear_weights(sx, ex, sy, ey, bt)) {
			check(implies(sy <= ey, v <= w), "weight rises towards a higher final weight");
			check(implies(sy >= ey, v >= w), "weight falls towards a lower final weight");
		}
	}
	// ---- M31: prices
	fn h_m31_spot() {
		let (ri, ro, a): (u128, u128, u128) = (any("r_in"), any("r_out"), any("amount"));
		let (wi, wo): (u32, u32) = (any("w_in"), any("w_out"));
		match calculate_spot_price(ri, ro, wi, wo, a) {
			Ok(p) => {
				observe("p", p);
				check(ri > 0, "zero reserve refused");
				check(implies(both(a > 0, ro > 0), wo > 0), "zero weight refused");
				check(either(wo == 0, is_floor(int(p), int(a) * int(ro) * int(wi), int(ri) * int(wo))), "price");
			}
			Err(e) => {
				check(implies(ri > 0, !matches!(e, MathError::ZeroReserve)), "error kind");
				let n = int(a) * int(ro) * int(wi);
				check(either(either(ri == 0, wo == 0), either(n.ge(&p256()), n.ge(&((max128() + 1) * int(ri) * int(wo))))), "defined unless out of range");
			}
		}
	}
	fn h_m31_spot_fee() {
		let (ri, ro): (u128, u128) = (any("r_in"), any("r_out"));
		let (wi, wo): (u32, u32) = (any("w_in"), any("w_out"));
		let (fa, ao): (u32, u32) = (any("fee_asset"), any("asset_out"));
		let (n, d): (u32, u32) = (any("fee_n"), any("fee_d"));
		assume(n <= d);
		assume(d > 0);
		let base = calculate_spot_price_with_fee(ri, ro, wi, wo, fa, ao, None);
		let with = calculate_spot_price_with_fee(ri, ro, wi, wo, fa, ao, Some((n, d)));
		match base {
			Ok(p) => {
				check(both(ri > 0, wo > 0), "zero reserve and weight refused");
				check(is_floor(int(p.into_inner()), int(ro) * int(wi) * int(E18), int(ri) * int(wo)), "price");
				match with {
					Ok(f) => {
						let f = f.into_inner();
						check(implies(fa != ao, f == p.into_inner()), "fee of the sold asset does not change the price");
						// the fee multiplier is rounded to 18 digits: 1 - floor(n / d)
						let m = int(E18) - (int(n) * int(E18)) / int(d);
						check(implies(fa == ao, either(is_floor(int(f), int(p.into_inner()) * m.clone(), int(E18)), is_ceil(int(f), int(p.into_inner()) * m, int(E18)))), "fee reduces the price");
					}
					Err(_) => check(false, "a fee does not make the price undefined"),
				}
			}
			Err(_) => {
				check(with.is_err(), "no price, no price with fee");
				check(either(either(ri == 0, wo == 0), either((int(ro) * int(wi)).gt(&max128()), either((int(ri) * int(wo)).gt(&max128()),
					(int(ro) * int(wi) * int(E18)).ge(&((max128() + 1) * int(ri) * int(wo)))))), "defined unless out of range");
			}
		}
	}
}
fn min32(a: u32, b: u32) -> u32 {
	ite(a < b, a as u128, b as u128) as u32
}
fn max32(a: u32, b: u32) -> u32 {
	ite(a < b, b as u128, a as u128) as u32
}
