use hydra_dx_math::lbp::*;
use symx::*;
use fixed::types::U32F96;
use hydra_dx_math::transcendental::pow;

fn one96() -> Int {
	int(1u128 << 96)
}
fn floor(n: Int, d: Int) -> Int {
	n / d
}
fn ceil(n: Int, d: Int) -> Int {
	(n + d.clone() - int(1u32)) / d
}
fn power(base: &Int, exponent: &Int) -> Option<u128> {
	let r: Result<U32F96, ()> = pow(U32F96::from_bits(amount(base)), U32F96::from_bits(amount(exponent)));
	r.ok().map(|p| p.to_bits())
}

harness! {
	// ---- M32: trades. The power function is uninterpreted: equal arguments give equal results.
	fn h_m32_sell_formula() {
		let (ri, ro, a): (u128, u128, u128) = (any("r_in"), any("r_out"), any("amount"));
		let (wi, wo): (u32, u32) = (any("w_in"), any("w_out"));
		assume(both(a > 0, wo > 0));
		assume((int(ri) + int(a)).le(&max128()));
		// the sold part of the reserve rounded up, the weight ratio rounded down
		let base = ceil(int(ri) * one96(), int(ri) + int(a));
		let exponent = floor(int(wi) * one96(), int(wo));
		let p = power(&base, &exponent);
		match calculate_out_given_in(ri, ro, wi, wo, a) {
			Ok(out) => {
				observe("out", out);
				check(p.is_some(), "no result without the power");
				let left = ceil(int(ro) * int(p.unwrap()), one96());
				check((int(out) + left).eq(&int(ro)), "pays the reserve less its power, rounded up");
			}
			Err(_) => {
				if let Some(p) = p {
					check(int(p).gt(&one96()), "pays the reserve less its power, rounded up");
				}
			}
		}
	}
	fn h_m32_sell_nothing() {
		let (ri, ro): (u128, u128) = (any("r_in"), any("r_out"));
		let (wi, wo): (u32, u32) = (any("w_in"), any("w_out"));
		check(calculate_out_given_in(ri, ro, wi, wo, 0) == Ok(0), "nothing for nothing");
	}
	fn h_m32_buy_formula() {
		let (ri, ro, a): (u128, u128, u128) = (any("r_in"), any("r_out"), any("amount"));
		let (wi, wo): (u32, u32) = (any("w_in"), any("w_out"));
		assume(wi > 0);
		match calculate_in_given_out(ri, ro, wi, wo, a) {
			Ok(i) => {
				observe("in", i);
				check(a < ro, "the whole reserve is not for sale");
				let base = ceil(int(ro) * one96(), int(ro) - int(a));
				let exponent = floor(int(wo) * one96(), int(wi));
				let p = power(&base, &exponent);
				check(p.is_some(), "no result without the power");
				let p = p.unwrap();
				check(int(p).ge(&one96()), "power of at least one");
				let r = ceil(int(ri) * (int(p) - one96()), one96());
				check(either((r.clone() + int(1u32)).eq(&int(i)), both(i == u128::MAX, r.eq(&max128()))), "charges the power of the reserve ratio, rounded up, and one");
			}
			Err(_) => {
				if a < ro {
					let base = ceil(int(ro) * one96(), int(ro) - int(a));
					if base.le(&max128()) {
						let p = power(&base, &floor(int(wo) * one96(), int(wi)));
						if let Some(p) = p {
							check(either(int(p).lt(&one96()), ceil(int(ri) * (int(p) - one96()), one96()).gt(&max128())), "charges the power of the reserve ratio, rounded up, and one");
						}
					}
				}
			}
		}
	}
	// with equal weights the power is the ratio itself: no uninterpreted part
	fn h_m32_sell_product() {
		let (ri, ro, a): (u128, u128, u128) = (any("r_in"), any("r_out"), any("amount"));
		let w: u32 = any("weight");
		assume(w > 0);
		if let Ok(out) = calculate_out_given_in(ri, ro, w, w, a) {
			check(out <= ro, "pays at most the reserve");
			check((int(ri) * int(ro)).le(&((int(ri) + int(a)) * (int(ro) - int(out)))), "product of reserves does not fall");
		}
	}
	fn h_m32_buy_product() {
		let (ri, ro, a): (u128, u128, u128) = (any("r_in"), any("r_out"), any("amount"));
		let w: u32 = any("weight");
		assume(w > 0);
		if let Ok(i) = calculate_in_given_out(ri, ro, w, w, a) {
			check(a < ro, "the whole reserve is not for sale");
			check(i > 0, "no free purchase");
			check(either(i == u128::MAX, (int(ri) * int(ro)).le(&((int(ri) + int(i)) * (int(ro) - int(a))))), "product of reserves does not fall");
		}
	}
}
