use hydra_dx_math::omnipool::types::*;
use hydra_dx_math::omnipool_subpools::types::MigrationDetails;
use hydra_dx_math::omnipool_subpools::*;
use symx::*;
use BalanceUpdate::*;

fn p128() -> Int {
	max128() + 1
}
fn state(n: &'static str) -> AssetReserveState<u128> {
	let v: [u128; 4] = any(n);
	AssetReserveState { reserve: v[0], hub_reserve: v[1], shares: v[2], protocol_shares: v[3] }
}

harness! {
	fn h_m75_protocol_shares() {
		let (h, s, p): (u128, u128, u128) = (any("hub"), any("shares"), any("protocol"));
		match recalculate_protocol_shares(h, s, p) {
			Some(r) => {
				observe("r", r);
				check(both(s > 0, is_floor(int(r), int(h) * int(p), int(s))), "proportional");
				check(implies(p <= s, r <= h), "no more than the whole");
			}
			None => check(either(s == 0, (int(h) * int(p)).ge(&(p128() * int(s)))), "defined unless out of range"),
		}
	}
	fn h_m75_create() {
		let (a, b) = (state("a"), state("b"));
		match create_subpool_initial_state(&a, &b) {
			Some(n) => {
				check(int(n.hub_reserve).eq(&(int(a.hub_reserve) + int(b.hub_reserve))), "hub reserves add up");
				check(both(n.shares == n.hub_reserve, n.reserve == n.hub_reserve), "shares and reserve start at the hub reserve");
				let pa = (int(a.hub_reserve) * int(a.protocol_shares)) / int(a.shares);
				let pb = (int(b.hub_reserve) * int(b.protocol_shares)) / int(b.shares);
				check(int(n.protocol_shares).eq(&(pa + pb)), "protocol shares add up");
			}
			None => check(either(either(a.shares == 0, b.shares == 0), either((int(a.hub_reserve) + int(b.hub_reserve)).gt(&max128()),
				either((int(a.hub_reserve) * int(a.protocol_shares)).ge(&(int(1u8) * int(a.shares))), (int(b.hub_reserve) * int(b.protocol_shares)).ge(&(int(1u8) * int(b.shares)))))), "defined unless out of range"),
		}
	}
	fn h_m75_migrate() {
		let (a, p) = (state("asset"), state("pool"));
		let iss: u128 = any("issuance");
		assume(p.hub_reserve > 0);
		if let Some((m, Some(c))) = calculate_asset_migration_details(&a, Some(&p), iss) {
			check(both(m.shares == a.shares, m.hub_reserve == a.hub_reserve), "shares and hub reserve recorded");
			let (Increase(r), Increase(h), Increase(s), Increase(ps)) = (c.delta_reserve, c.delta_hub_reserve, c.delta_shares, c.delta_protocol_shares) else {
				check(false, "migration only adds");
				return;
			};
			check(both(h == a.hub_reserve, r == m.share_tokens), "hub reserve moves over");
			check(is_floor(int(r), int(a.hub_reserve) * int(iss), int(p.hub_reserve)), "share tokens in proportion to hub reserve");
			check(is_floor(int(s), int(a.hub_reserve) * int(p.shares), int(p.hub_reserve)), "shares in proportion to hub reserve");
			check(is_floor(int(ps), ((int(p.shares) * int(a.hub_reserve)) / int(p.hub_reserve)) * int(a.protocol_shares), int(a.shares)), "protocol shares in proportion");
			check(implies(a.protocol_shares <= a.shares, ps <= s), "protocol shares within shares");
		}
	}
	fn h_m75_migrate_defined() {
		let (a, p) = (state("asset"), state("pool"));
		let iss: u128 = any("issuance");
		assume(both(p.hub_reserve > 0, a.shares > 0));
		assume(both(a.protocol_shares <= a.shares, a.hub_reserve <= p.hub_reserve));
		match calculate_asset_migration_details(&a, Some(&p), iss) {
			Some((_, c)) => check(c.is_some(), "an existing pool changes"),
			None => check(false, "defined for an asset no larger than the pool"),
		}
		match calculate_asset_migration_details(&a, None, iss) {
			Some((m, c)) => {
				check(c.is_none(), "a new pool has no change");
				check(both(both(m.shares == a.shares, m.hub_reserve == a.hub_reserve), m.share_tokens == a.hub_reserve), "details of a new pool");
				check(both(m.price.0 == a.hub_reserve, m.price.1 == a.reserve), "price of a new pool");
			}
			None => check(false, "defined for a new pool"),
		}
	}
	fn h_m75_position() {
		let (am, sh): (u128, u128) = (any("amount"), any("shares"));
		let pr: [u128; 2] = any("price");
		let d: [u128; 3] = any("details");
		// prices whose products fit: no precision is lost
		let dp: [u64; 2] = any("pool_price");
		assume(both(pr[0] < 1 << 64, pr[1] < 1 << 64));
		let det = MigrationDetails { price: (dp[0] as u128, dp[1] as u128), shares: d[0], hub_reserve: d[1], share_tokens: d[2] };
		let pos = Position { amount: am, shares: sh, price: (pr[0], pr[1]) };
		match convert_position(pos, det) {
			Some(n) => {
				observe("shares", n.shares);
				check(d[0] > 0, "undefined without shares");
				check(is_floor(int(n.shares), int(sh) * int(d[1]), int(d[0])), "shares in proportion to the hub reserve");
				check(is_floor(int(n.amount), int(am) * int(d[2]), int(d[0])), "amount in proportion to the share tokens");
				check(both(int(n.price.0).eq(&(int(pr[0]) * int(dp[1]))), int(n.price.1).eq(&(int(pr[1]) * int(dp[0])))), "price relative to the pool price");
			}
			None => check(either(d[0] == 0, either((int(sh) * int(d[1])).ge(&(p128() * int(d[0]))), (int(am) * int(d[2])).ge(&(p128() * int(d[0]))))), "defined unless out of range"),
		}
	}
}
