use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::*;
use hydra_dx_math::support::rational::{round_to_rational, Rounding};
use primitive_types::U256;
use sp_arithmetic::Permill;
use symx::*;

const MAX: u128 = u128::MAX;
fn r18(a: u128) -> AssetReserve {
	AssetReserve::new(a, 18)
}
fn sum(xs: &[u128]) -> Int {
	let mut s = int(0u32);
	for x in xs {
		s = s + int(*x);
	}
	s
}
fn prod(xs: &[u128]) -> Int {
	let mut s = int(1u32);
	for x in xs {
		s = s * int(*x);
	}
	s
}
fn pow(b: &Int, n: usize) -> Int {
	let mut s = int(1u32);
	for _ in 0..n {
		s = s * b.clone();
	}
	s
}
fn n_to_n(xs: &[u128]) -> Int {
	pow(&int(xs.len() as u128), xs.len())
}
/// n^n x1..xn ((ann-1) d - ann S) + d^(n+1); its sign is that of d - D, where D solves the curve equation
fn curve(xs: &[u128], amp: u128, d: &Int) -> Int {
	let k = prod(xs) * n_to_n(xs);
	let ann = int(amp) * int(xs.len() as u128);
	pow(d, xs.len() + 1) + k * ((ann.clone() - int(1u32)) * d.clone() - ann * sum(xs))
}
/// steps to the invariant's lower bound, from an arbitrary value p before the last iteration
fn lower_bound_steps(xs: &[u128], amp: u128, d: u128) {
	let n = xs.len();
	let nn = int(n as u128);
	let two = int(2u32);
	let s = sum(xs);
	let p = ghost(0);
	let g = curve(xs, amp, &int(d));
	let mut v = xs.to_vec();
	v.sort();
	let past = p.gt(&s);
	if past {
		given_le(&s, &p);
	} else {
		// d_p, as the loop computes it
		let mut dp = p.clone();
		let mut k = int(1u32);
		for (i, x) in v.iter().enumerate() {
			let q = dp.clone() * p.clone() / (int(*x) * nn.clone());
			let k1 = k.clone() * int(*x) * nn.clone();
			if i > 0 {
				// q n x <= dp p and dp k <= p^(i+1)
				given_le(&(q.clone() * int(*x) * nn.clone()), &(dp.clone() * p.clone()));
				given_le(&(dp.clone() * k.clone()), &pow(&p, i + 1));
				given_le(&int(0u32), &dp);
				given_le(&int(1u32), &p);
				hide(&dp);
				hide(&q);
				if i > 1 {
					given_le(&int(1u32), &k);
					hide(&k);
				}
				qed((q.clone() * k1.clone()).le(&pow(&p, i + 2)), "product of quotients");
			}
			dp = q;
			k = k1;
		}
		let ann = int(amp) * nn.clone();
		let f = int(d) - two.clone();
		given_le(&int(1u32), &p);
		given_le(&p, &s);
		given_le(&(dp.clone() * k), &pow(&p, n + 1));
		let num = (ann.clone() * s.clone() + dp.clone() * nn.clone()) * p.clone();
		let den = (ann - int(1u32)) * p.clone() + dp.clone() * (nn + int(1u32));
		given_le(&(f.clone() * den.clone()), &num);
		given_le(&(num + int(1u32)), &((f + int(1u32)) * den));
		hide(&dp);
	}
	for x in xs {
		given_le(&two, &int(*x));
	}
	given_le(&two, &int(amp));
	given_le(&p, &int(d));
	given_le(&int(d), &(p.clone() + int(1u32)));
	let xp = prod(xs);
	if !past {
		given_le(&pow(&two, n), &xp);
		hide(&xp);
	}
	hide(&p);
	hide(&int(d));
	qed(g.ge(&int(0u32)), if past { "past the sum" } else { "near the root" });
}
fn never_below(xs: &[u128]) {
	let amp: u128 = within("amp", 2, 10_000);
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	if let Some(d) = calculate_d::<64>(&rs, amp) {
		observe("d", d);
		if symbolic() {
			lower_bound_steps(xs, amp, d);
		}
		check(curve(xs, amp, &int(d)).ge(&int(0u32)), "not below the invariant");
	}
}

fn c_of(others: &[u128], amp: u128, d: u128) -> Int {
	let mut xs = others.to_vec();
	xs.sort();
	let n = int(others.len() as u128 + 1);
	let mut q = int(d);
	for v in xs.iter() {
		q = q * int(d) / (int(*v) * n.clone());
	}
	q * int(d) / (int(amp) * n.clone() * n)
}
/// steps to the bound on a reserve computed from the invariant: `others` are the remaining reserves, r the result
fn reserve_steps(others: &[u128], amp: u128, d: u128, r: &Int, after: &Int, goal: bool) {
	let (zero, one, two) = (int(0u32), int(1u32), int(2u32));
	let mut xs = others.to_vec();
	xs.sort();
	let m = xs.len();
	let nn = int(m as u128 + 1);
	let d = int(d);
	let ann = int(amp) * nn.clone();
	let p = ghost(0);
	let last = int(xs[m - 1]);
	let x = sum(&xs);
	// the quotients that make up c
	let mut qs = vec![d.clone()];
	let mut k = one.clone();
	for v in xs.iter() {
		let q = qs[qs.len() - 1].clone() * d.clone() / (int(*v) * nn.clone());
		qs.push(q);
		k = k * int(*v) * nn.clone();
	}
	let c = qs[m].clone() * d.clone() / (ann.clone() * nn.clone());
	let f = d.clone() / ann.clone();
	let b = x.clone() + f.clone();
	let wt = p.clone() * two.clone() + b.clone() - d.clone();
	let w = alias(&wt);
	let top = pow(&d, m + 2);
	// what the divisions lose, over k = the product of n x
	let first = int(xs[0]) * nn.clone();
	let mut loss = k.clone() * d.clone();
	if m > 1 {
		loss = loss + first.clone() * d.clone() * d.clone();
	}
	let l1 = k.clone() * nn.clone() * ann.clone() * (c.clone() + one.clone()) + loss.clone();
	given_le(&one, &d);
	given_le(&one, &ann);
	for v in xs.iter() {
		given_le(&one, &int(*v));
	}
	for i in 0..m {
		given_le(&(qs[i].clone() * d.clone() + one.clone()), &((qs[i + 1].clone() + one.clone()) * nn.clone() * int(xs[i])));
	}
	given_le(&(qs[m].clone() * d.clone() + one.clone()), &((c.clone() + one.clone()) * nn.clone() * ann.clone()));
	hide(&c);
	for i in 1..m + 1 {
		hide(&qs[i]);
	}
	qed(top.le(&l1), "quotients");
	// w^2 is at least the discriminant
	let bd = b.clone() - d.clone();
	let w2 = bd.clone() * bd.clone() + c.clone() * int(4u32) + one.clone();
	let step = [(one.clone(), w.clone()), (p.clone(), r.clone()), (r.clone(), p.clone() + one.clone()), (c.clone() + p.clone() * p.clone() + one.clone(), (r.clone() - one.clone()) * w.clone()), (w.clone(), wt.clone()), (wt.clone(), w.clone())];
	for (l, h) in &step {
		given_le(l, h);
	}
	hide(&c);
	hide(&f);
	hide(r);
	qed(w2.le(&(w.clone() * w.clone())), "discriminant");
	// the slack in w covers what the quotients lose
	let (slack, room) = if m == 1 { (two.clone() * ann.clone() * (w.clone() - one.clone()), d.clone()) } else { (int(9u32) * last.clone() * ann.clone() * (w.clone() - one.clone()), int(3u32) * last.clone() * d.clone() + d.clone() * d.clone()) };
	if d.le(&last) {
		// 8 ann <= d < (f + 1) ann and w >= f
		let aw = ann.clone() * (w.clone() - one.clone());
		given_le(&zero, &p);
		given_le(&wt, &w);
		given_le(&d, &x);
		hide(&f);
		qed(f.le(&w), "slack, large reserve, linear");
		given_le(&(ann.clone() * int(8u32)), &d);
		given_le(&one, &ann);
		given_le(&(d.clone() + one.clone()), &((f.clone() + one.clone()) * ann.clone()));
		given_le(&f, &w);
		hide(&f);
		qed((d.clone() * int(3u32)).le(&(aw.clone() * int(4u32))), "slack, large reserve, scaled");
		let aw = alias(&aw);
		given_le(&(d.clone() * int(3u32)), &(aw.clone() * int(4u32)));
		given_le(&d, &last);
		given_le(&one, &d);
		qed(room.le(&(if m == 1 { two.clone() * aw.clone() } else { int(9u32) * last.clone() * aw.clone() })), "slack, large reserve, product");
		given_le(&room, &(if m == 1 { two.clone() * aw.clone() } else { int(9u32) * last.clone() * aw.clone() }));
		given_le(&aw, &(ann.clone() * (w.clone() - one.clone())));
		given_le(&one, &last);
		qed(room.le(&slack), "slack, large reserve");
	} else {
		// big = n^n times the reserves but the first, times ann (c + 1), and what the divisions lose
		let big = if m == 1 { l1.clone() } else { int(27u32) * last.clone() * ann.clone() * (c.clone() + one.clone()) + int(3u32) * d.clone() * d.clone() + int(9u32) * last.clone() * d.clone() };
		let big = if m == 1 {
			big
		} else {
			given_le(&int(xs[0]), &last);
			given_le(&one, &int(xs[0]));
			given_le(&top, &l1);
			given_le(&one, &d);
			given_le(&zero, &c);
			given_le(&one, &ann);
			hide(&c);
			qed(top.le(&(last.clone() * big.clone())), "slack, small reserve, one factor");
			last.clone() * big
		};
		given_le(&two, &last);
		given_le(&last, &d);
		given_le(&(ann.clone() * int(8u32)), &d);
		given_le(&(nn.clone() * two.clone()), &ann);
		given_le(&one, &w);
		given_le(&zero, &c);
		given_le(&w2, &(w.clone() * w.clone()));
		hide(&c);
		hide(&f);
		qed((c.clone() * int(4u32) + one.clone()).le(&(w.clone() * w.clone())), "discriminant, c");
		given_le(&two, &last);
		given_le(&last, &d);
		given_le(&(ann.clone() * int(8u32)), &d);
		given_le(&(nn.clone() * two.clone()), &ann);
		given_le(&one, &w);
		given_le(&zero, &c);
		given_le(&top, &big);
		given_le(&(c.clone() * int(4u32) + one.clone()), &(w.clone() * w.clone()));
		hide(&c);
		qed(room.le(&slack), "slack, small reserve");
	}
	// the quadratic at r
	let h = r.clone() * r.clone() + (b.clone() - d.clone()) * r.clone();
	for (l, h) in &step {
		given_le(l, h);
	}
	given_le(&one, &p);
	hide(&c);
	hide(&f);
	hide(r);
	qed((c.clone() + w.clone()).le(&h), "quadratic");
	let z = ann.clone() * r.clone() * (x.clone() + r.clone() - d.clone()) + d.clone() * r.clone();
	given_le(&one, r);
	given_le(&one, &ann);
	given_le(&(c.clone() + w.clone()), &h);
	given_le(&(f.clone() * ann.clone()), &d);
	hide(&c);
	hide(&f);
	hide(r);
	qed((ann.clone() * (c.clone() + w.clone())).le(&z), "scaled");
	let zz = alias(&z);
	given_le(&(ann.clone() * (c.clone() + w.clone())), &zz);
	given_le(&room, &slack);
	given_le(&top, &l1);
	given_le(&one, &int(xs[0]));
	given_le(&one, &last);
	hide(&c);
	qed(top.le(&(k.clone() * nn.clone() * zz.clone())), "at the result");
	// and one above it
	let gt = ann.clone() * (x.clone() + r.clone() - d.clone()) + d.clone();
	let (g, kt) = (alias(&gt), k.clone() * nn.clone());
	let ka = alias(&kt);
	let zg = r.clone() * g.clone();
	given_le(&one, &d);
	given_le(&one, &ka);
	given_le(&one, r);
	given_le(&one, &ann);
	given_le(&top, &(kt.clone() * zz.clone()));
	given_le(&zz, &zg);
	given_le(&ka, &kt);
	given_le(&kt, &ka);
	given_le(r, after);
	hide(r);
	let gap = after.clone() - r.clone();
	qed(top.le(&(ka.clone() * after.clone() * (g.clone() + ann.clone() * gap.clone()))), "above the result");
	given_le(&top, &(ka.clone() * after.clone() * (g.clone() + ann.clone() * gap.clone())));
	given_le(&ka, &kt);
	given_le(&kt, &ka);
	given_le(&g, &gt);
	given_le(&gt, &g);
	hide(r);
	qed(goal, "curve");
}
/// the reserves other than the one the curve gives, after the trade; `r` one below that reserve
fn trade_check(rs: &[AssetReserve], after: &[u128], given: usize, amp: u128) {
	let d = calculate_d::<64>(rs, amp).unwrap();
	assume(d / (8 * amp * rs.len() as u128) > 0);
	if symbolic() {
		let mut others = vec![];
		for (i, v) in after.iter().enumerate() {
			if i != given {
				others.push(*v);
			}
		}
		reserve_steps(&others, amp, d, &(int(after[given]) - int(1u32)), &int(after[given]), curve(after, amp, &int(d)).le(&int(0u32)));
	}
	check(curve(after, amp, &int(d)).le(&int(0u32)), "invariant not lowered");
}
fn sell(xs: &[u128], i: usize, o: usize) {
	let amount: u128 = within("amount", 1, MAX);
	let amp: u128 = within("amp", 2, 10_000);
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	if let Some(out) = calculate_out_given_in::<64, 128>(&rs, i, o, amount, amp) {
		observe("out", out);
		assume(out > 0);
		let mut after = xs.to_vec();
		after[i] += amount;
		after[o] -= out;
		trade_check(&rs, &after, o, amp);
	}
}
fn buy(xs: &[u128], i: usize, o: usize) {
	let amount: u128 = within("amount", 1, MAX);
	let amp: u128 = within("amp", 2, 10_000);
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	if let Some(paid) = calculate_in_given_out::<64, 128>(&rs, i, o, amount, amp) {
		observe("paid", paid);
		let mut after = xs.to_vec();
		assume(after[i] <= MAX - paid);
		after[i] += paid;
		after[o] -= amount;
		assume(after[o] >= 2);
		trade_check(&rs, &after, i, amp);
	}
}
fn u256(v: u128) -> U256 {
	U256::from(v)
}
fn spot_price(n: usize, i: usize, o: usize) {
	let xs: [u128; 3] = any("x");
	let xs = &xs[..n];
	let (amp, d): (u128, u128) = (any("amp"), any("d"));
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	let (f, fee) = fee();
	let p = calculate_spot_price_between_two_stable_assets(&rs, amp, d, i, o, None);
	let q = calculate_spot_price_between_two_stable_assets(&rs, amp, d, i, o, Some(fee));
	if let Some(p) = p {
		let p = p.into_inner();
		observe("p", p);
		let mut v = xs.to_vec();
		v.sort();
		let mut c = u256(d);
		for x in v.iter() {
			c = c * u256(d) / (u256(*x) * u256(n as u128));
		}
		let ann = u256(amp) * u256(n as u128);
		let (x, y) = (u256(xs[i]), u256(xs[o]));
		let (a, b) = round_to_rational((x * (ann * y + c), y * (ann * x + c)), Rounding::Down);
		check(is_floor(int(p), int(a) * int(E18), int(b)), "slope of the curve");
		if let Some(q) = q {
			let (q, b) = (q.into_inner(), int(b) * (int(1_000_000u32) - int(f)) / int(1_000_000u32));
			check(is_floor(int(q), int(a) * int(E18), b), "slope of the curve over what the fee leaves");
			check(q >= p, "no cheaper with a fee");
		}
	}
}
fn share_price(n: usize, k: usize) {
	let xs: [u128; 3] = any("x");
	let xs = &xs[..n];
	let (amp, d, issuance): (u128, u128, u128) = (any("amp"), any("d"), any("issuance"));
	let dec = decimals("dec");
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	assume(xs[k] <= MAX / pow10(18 - dec as u32));
	rs[k] = AssetReserve::new(xs[k], dec);
	if let Some((a, b)) = calculate_share_price::<64>(&rs, amp, issuance, k, Some(d)) {
		let scale = pow10(18 - dec as u32);
		let mut ratio = int(E18);
		for (i, x) in xs.iter().enumerate() {
			let x = if i == k { *x * scale } else { *x };
			ratio = ratio * (int(d) * int(E18) / (int(x) * int(n as u128))) / int(E18);
		}
		let c = u256(amount(&(ratio * int(d) / int(E18))));
		let (ann, d) = (u256(amp) * u256(n as u128), u256(d));
		let x = u256(xs[k] * scale);
		let num = d * (x * ann) + x * c * u256(n as u128 + 1) - x * d;
		let den = u256(issuance) * (x * ann + c);
		let (u, v) = round_to_rational(match den.checked_mul(u256(scale)) {
			Some(den) => (num, den),
			None => (num / u256(scale), den),
		}, Rounding::Down);
		check(both(a == u, b == v), "derivative of the invariant per share");
	}
}
const E18: u128 = 1_000_000_000_000_000_000;
fn fee() -> (u32, Permill) {
	let f: u32 = within("fee", 0, 1_000_000);
	(f, Permill::from_parts(f))
}
/// pool fee times n / (4 (n - 1)), in units of 10^-18
fn imbalance_fee(f: u32, n: usize) -> Int {
	int(f) * int(E18 / 1_000_000) * int(n as u128) / int(4 * (n as u128 - 1))
}
/// reserve less the fee on its distance from the reserve in proportion
fn adjusted(before: u128, after: u128, d0: u128, d1: &Int, f: &Int) -> u128 {
	let ideal = d1.clone() * int(before) / int(d0);
	let over = int(after).ge(&ideal);
	let diff = if over { int(after) - ideal } else { ideal - int(after) };
	let cut = f.clone() * diff / int(E18);
	if cut.ge(&int(after)) {
		0
	} else {
		amount(&(int(after) - cut))
	}
}
fn shares_of(n: usize) {
	let xs: [u128; 3] = any("x");
	let ys: [u128; 3] = any("y");
	let (xs, ys) = (&xs[..n], &ys[..n]);
	let amp: u128 = any("amp");
	let issuance: u128 = within("issuance", 1, MAX);
	let (f, fee) = fee();
	let (mut before, mut after) = (vec![], vec![]);
	for i in 0..n {
		before.push(r18(xs[i]));
		after.push(r18(ys[i]));
	}
	let r = calculate_shares::<64>(&before, &after, amp, issuance, fee);
	let (d0, d1) = (calculate_d::<64>(&before, amp), calculate_d::<64>(&after, amp));
	match r {
		Some(s) => {
			observe("shares", s);
			let (d0, d1) = (d0.unwrap(), int(d1.unwrap()) - int(2u32));
			check(d1.ge(&int(d0)), "the invariant grows");
			{
				let ff = imbalance_fee(f, n);
				let mut adj = vec![];
				for i in 0..n {
					adj.push(r18(adjusted(xs[i], ys[i], d0, &d1, &ff)));
				}
				match calculate_d::<64>(&adj, amp) {
					Some(a) => check(both(a >= d0, is_floor(int(s), int(issuance) * (int(a) - int(d0)), int(d0))), "shares in proportion to the invariant less fees"),
					None => check(false, "invariant less fees"),
				}
			}
		}
		None => {}
	}
}
fn burnt_shares(n: usize, k: usize) {
	let xs: [u128; 3] = any("x");
	let xs = &xs[..n];
	let out: u128 = any("out");
	let amp: u128 = any("amp");
	let issuance: u128 = any("issuance");
	let (f, fee) = fee();
	let (mut before, mut after) = (vec![], vec![]);
	for i in 0..n {
		before.push(r18(xs[i]));
	}
	if let Some(s) = calculate_shares_for_amount::<64>(&before, k, out, amp, issuance, fee) {
		observe("shares", s);
		check(out <= xs[k], "no more than the reserve");
		let mut ys = xs.to_vec();
		ys[k] -= out;
		for y in ys.iter() {
			after.push(r18(*y));
		}
		let (d0, d1) = (calculate_d::<64>(&before, amp).unwrap(), int(calculate_d::<64>(&after, amp).unwrap()));
		let ff = imbalance_fee(f, n);
		let mut adj = vec![];
		for i in 0..n {
			adj.push(r18(adjusted(xs[i], ys[i], d0, &d1, &ff)));
		}
		match calculate_d::<64>(&adj, amp) {
			Some(a) => check(both(a <= d0, is_floor(int(s) - int(1u32), int(issuance) * (int(d0) - int(a)), int(d0))), "one more than the share of the invariant withdrawn, with fees"),
			None => check(false, "invariant less fees"),
		}
	}
}
fn pow10(k: u32) -> u128 {
	10u128.pow(k)
}
fn decimals(name: &'static str) -> u8 {
	match within::<u8>(name, 0, 2) {
		0 => 6,
		1 => 12,
		_ => 18,
	}
}
fn trade_decimals(buy: bool) {
	let (di, dout) = (decimals("dec_in"), decimals("dec_out"));
	let (si, so) = (pow10(18 - di as u32), pow10(18 - dout as u32));
	let x: u128 = within("x", 0, MAX / si);
	let y: u128 = within("y", 0, MAX / so);
	let amount: u128 = within("amount", 0, MAX / if buy { so } else { si });
	let amp: u128 = any("amp");
	let (f, fee) = fee();
	let rs = [AssetReserve::new(x, di), AssetReserve::new(y, dout)];
	let n18 = [r18(x * si), r18(y * so)];
	if buy {
		let p = calculate_in_given_out::<64, 128>(&rs, 0, 1, amount, amp);
		let w = calculate_in_given_out_with_fee::<64, 128>(&rs, 0, 1, amount, amp, fee);
		let n = calculate_in_given_out::<64, 128>(&n18, 0, 1, amount * so, amp);
		match n {
			Some(n) => {
				let v = p.unwrap();
				observe("v", v);
				assume(n < MAX);
				check(implies(n > 0, if si == 1 { v == n } else { (int(v) - int(2u32)).eq(&((int(n) - int(1u32)) / int(si))) }), "price at 18 decimals, rounded up");
				match w {
					Some((paid, fee)) => check(both((int(v) + int(fee)).eq(&int(paid)), int(fee).eq(&((int(v) * int(f) + int(999_999u32)) / int(1_000_000u32)))), "fee on top, rounded up"),
					None => assume((int(v) * int(f)).gt(&((max128() - int(v) - int(1u32)) * int(1_000_000u32)))),
				}
			}
			None => check(both(p.is_none(), w.is_none()), "defined alike"),
		}
	} else {
		let p = calculate_out_given_in::<64, 128>(&rs, 0, 1, amount, amp);
		let w = calculate_out_given_in_with_fee::<64, 128>(&rs, 0, 1, amount, amp, fee);
		let n = calculate_out_given_in::<64, 128>(&n18, 0, 1, amount * si, amp);
		match n {
			Some(n) => {
				let v = p.unwrap();
				observe("v", v);
				if so == 1 {
					check(v == n, "price at 18 decimals");
				} else {
					let q = (int(n) + int(1u32)) / int(so);
					check(implies(n > 0, either(int(v).eq(&(q.clone() - int(1u32))), both(v == 0, q.eq(&int(0u32))))), "price at 18 decimals, rounded down");
					check(implies(n == 0, v == 0), "nothing for nothing");
				}
				let (got, fee) = w.unwrap();
				check(both((int(got) + int(fee)).eq(&int(v)), is_floor(int(fee), int(v) * int(f), int(1_000_000u32))), "fee taken off, rounded down");
			}
			None => check(both(p.is_none(), w.is_none()), "defined alike"),
		}
	}
}
/// one asset withdrawn against (or added for) shares: the invariant falls (rises) by at most (at least) the shares' part
fn one_asset(xs: &[u128], k: usize, add: bool, fee: Permill) {
	let shares: u128 = within("shares", 0, MAX);
	let issuance: u128 = within("issuance", 1, MAX);
	let amp: u128 = within("amp", 2, 10_000);
	let mut rs = vec![];
	for x in xs {
		rs.push(r18(*x));
	}
	let r = if add { calculate_add_one_asset::<64, 128>(&rs, shares, k, issuance, amp, fee) } else { calculate_withdraw_one_asset::<64, 128>(&rs, shares, k, issuance, amp, fee) };
	if let Some((v, _)) = r {
		observe("v", v);
		check(shares <= issuance, "no more shares than there are");
		let d0 = calculate_d::<64>(&rs, amp).unwrap();
		let part = int(shares) * int(d0) / int(issuance);
		let d = amount(&(if add { int(d0) + part } else { int(d0) - part }));
		assume(d / (8 * amp * rs.len() as u128) > 0);
		let mut after = xs.to_vec();
		if add {
			assume(after[k] <= MAX - v);
			after[k] += v;
		} else {
			check(v <= after[k], "no more than the reserve");
			after[k] -= v;
		}
		let goal = curve(&after, amp, &int(d)).le(&int(0u32));
		if symbolic() {
			let mut others = vec![];
			for (i, x) in xs.iter().enumerate() {
				if i != k {
					others.push(*x);
				}
			}
			let p = ghost(0);
			let w = p.clone() * int(2u32) + sum(&others) + int(d) / (int(amp) * int(xs.len() as u128)) - int(d);
			let c = c_of(&others, amp, d);
			let r = (p.clone() * p + c) / w + int(2u32);
			reserve_steps(&others, amp, d, &r, &int(after[k]), goal);
		}
		check(goal, "invariant per share not lowered");
	}
}
harness! {
	fn h_m23_sell_two_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		sell(&[x, y], 0, 1);
	}
	fn h_m23_buy_two_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		buy(&[x, y], 1, 0);
	}
	fn h_m23_sell_three_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		let z: u128 = within("z", 2, MAX);
		sell(&[x, y, z], 2, 0);
	}
	fn h_m23_buy_three_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		let z: u128 = within("z", 2, MAX);
		buy(&[x, y, z], 1, 2);
	}
	fn h_m24_shares_two_assets() {
		shares_of(2);
	}
	fn h_m24_shares_three_assets() {
		shares_of(3);
	}
	fn h_m24_first_shares() {
		let (x0, y0, x, y): (u128, u128, u128, u128) = (any("x0"), any("y0"), any("x"), any("y"));
		let amp: u128 = any("amp");
		let (before, after) = ([r18(x0), r18(y0)], [r18(x), r18(y)]);
		let (d0, d1) = (calculate_d::<64>(&before, amp), calculate_d::<64>(&after, amp));
		let fee = fee().1;
		match calculate_shares::<64>(&before, &after, amp, 0, fee) {
			Some(s) => check(both(int(s).eq(&(int(d1.unwrap()) - int(2u32))), s >= d0.unwrap()), "first shares are the invariant"),
			None => {
				if let (Some(d0), Some(d1)) = (d0, d1) {
					check((int(d1) - int(2u32)).lt(&int(d0)), "first shares are issued");
				}
			}
		}
		check(calculate_shares::<64>(&before, &[r18(x)], amp, 0, fee).is_none(), "asset counts agree");
		check(calculate_shares::<64>(&[r18(x0)], &[r18(x)], amp, 0, fee).is_none(), "at least two assets");
	}
	fn h_m24_burnt_two_assets() {
		burnt_shares(2, 1);
	}
	fn h_m24_burnt_three_assets() {
		burnt_shares(3, 1);
	}
	// ---- M20: amplification
	fn h_m20_ramp() {
		let (a, b): (u128, u128) = (any("initial"), any("target"));
		let (t0, t1, t): (u128, u128, u128) = (any("start"), any("end"), any("now"));
		let v = calculate_amplification(a, b, t0, t1, t);
		observe("v", v);
		let low = if a < b { a } else { b };
		let high = if a < b { b } else { a };
		check(both(low <= v, v <= high), "between the ends");
		if t1 <= t0 || t < t0 {
			check(v == a, "initial value before the ramp");
		} else if t >= t1 {
			check(v == b, "final value after the ramp");
		} else {
			let gap = int(high) - int(low);
			let moved = if a < b { int(v) - int(a) } else { int(a) - int(v) };
			let all = gap * (int(t) - int(t0));
			if all.le(&max128()) {
				check(is_floor(moved, all, int(t1) - int(t0)), "linear, rounded down");
			}
		}
	}
	fn h_m20_monotone() {
		let (a, b): (u128, u128) = (any("initial"), any("target"));
		let (t0, t1, t, u): (u128, u128, u128, u128) = (any("start"), any("end"), any("now"), any("later"));
		assume(both(t <= u, t0 < t1));
		let (v, w) = (calculate_amplification(a, b, t0, t1, t), calculate_amplification(a, b, t0, t1, u));
		check(if a <= b { v <= w } else { w <= v }, "only towards the final value");
	}
	// ---- M26: prices
	fn h_m26_spot_two_assets() {
		spot_price(2, 0, 1);
	}
	fn h_m26_spot_three_assets() {
		spot_price(3, 2, 1);
	}
	fn h_m26_share_price_two_assets() {
		share_price(2, 1);
	}
	fn h_m26_share_price_three_assets() {
		share_price(3, 0);
	}
	fn h_m26_pool_prices() {
		let (x, y): (u128, u128) = (any("x"), any("y"));
		let amp: u128 = any("amp");
		let (issuance, trade): (u128, u128) = (any("issuance"), any("min_trade"));
		let fee = fee().1;
		let rs = [r18(x), r18(y)];
		let pool = || vec![(3u32, r18(x)), (5u32, r18(y))];
		let d = calculate_d::<MAX_D_ITERATIONS>(&rs, amp);
		let p = calculate_spot_price(9, pool(), amp, 5, 3, issuance, trade, Some(fee));
		check(p == d.and_then(|d| calculate_spot_price_between_two_stable_assets(&rs, amp, d, 1, 0, Some(fee))), "price between two assets");
		let p = calculate_spot_price(9, pool(), amp, 9, 5, issuance, trade, Some(fee));
		if let Some(p) = p {
			let s = calculate_shares_for_amount::<MAX_D_ITERATIONS>(&rs, 1, trade, amp, issuance, fee).unwrap();
			observe("p", p.into_inner());
			check(is_floor(int(p.into_inner()), int(s) * int(E18), int(trade)), "shares per asset at the smallest trade");
		}
		let p = calculate_spot_price(9, pool(), amp, 3, 9, issuance, trade, Some(fee));
		if let Some(p) = p {
			let s = calculate_shares::<MAX_D_ITERATIONS>(&rs, &[r18(x + trade), r18(y)], amp, issuance, fee).unwrap();
			check(is_floor(int(p.into_inner()), int(trade) * int(E18), int(s)), "asset per share at the smallest trade");
		}
		check(calculate_spot_price(9, pool(), amp, 9, 9, issuance, trade, None).is_none(), "no price of the share in itself");
		check(calculate_spot_price(9, pool(), amp, 4, 3, issuance, trade, None).is_none(), "no price of an asset the pool does not hold");
	}
	// ---- M21: decimals and fees
	fn h_m21_sell_decimals() {
		trade_decimals(false);
	}
	fn h_m21_buy_decimals() {
		trade_decimals(true);
	}
	fn h_m25_withdraw_two_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		one_asset(&[x, y], 1, false, fee().1);
	}
	fn h_m25_add_two_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		one_asset(&[x, y], 0, true, fee().1);
	}
	fn h_m25_withdraw_three_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		let z: u128 = within("z", 2, MAX);
		one_asset(&[x, y, z], 1, false, Permill::from_parts(0));
	}
	fn h_m25_add_three_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		let z: u128 = within("z", 2, MAX);
		one_asset(&[x, y, z], 2, true, Permill::from_parts(0));
	}
	fn h_m22_two_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		never_below(&[x, y]);
	}
	fn h_m22_zero_reserves() {
		let (x, y): (u128, u128) = (any("x"), any("y"));
		let amp: u128 = any("amp");
		assume(amp <= MAX / 3);
		check(calculate_d::<64>(&[r18(0), r18(0)], amp) == Some(0), "an empty pool has no value");
		check(calculate_d::<64>(&[r18(0), r18(0), r18(0)], amp) == Some(0), "an empty pool has no value");
		assume(x > 0);
		check(calculate_d::<64>(&[r18(x), r18(0)], amp).is_none(), "a reserve is missing");
		check(calculate_d::<64>(&[r18(0), r18(y), r18(x)], amp).is_none(), "a reserve is missing");
	}
	fn h_m22_three_assets() {
		let x: u128 = within("x", 2, MAX);
		let y: u128 = within("y", 2, MAX);
		let z: u128 = within("z", 2, MAX);
		never_below(&[x, y, z]);
	}
}
