//! Native run-time of the harness vocabulary.
use core::cmp::Ordering;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Big {
	neg: bool,
	mag: Vec<u32>,
}
fn trim(v: &mut Vec<u32>) {
	while v.last() == Some(&0) {
		v.pop();
	}
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
	if a.len() != b.len() {
		return a.len().cmp(&b.len());
	}
	for i in (0..a.len()).rev() {
		if a[i] != b[i] {
			return a[i].cmp(&b[i]);
		}
	}
	Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
	let mut r = Vec::new();
	let mut c = 0u64;
	for i in 0..a.len().max(b.len()) {
		let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
		r.push(s as u32);
		c = s >> 32;
	}
	if c > 0 {
		r.push(c as u32);
	}
	r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
	let mut r = Vec::new();
	let mut br = 0i64;
	for i in 0..a.len() {
		let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
		br = 0;
		if s < 0 {
			s += 1 << 32;
			br = 1;
		}
		r.push(s as u32);
	}
	trim(&mut r);
	r
}
impl Big {
	fn new(neg: bool, mut mag: Vec<u32>) -> Self {
		trim(&mut mag);
		let neg = neg && !mag.is_empty();
		Big { neg, mag }
	}
	pub fn from_u128(mut v: u128) -> Self {
		let mut m = vec![];
		while v > 0 {
			m.push(v as u32);
			v >>= 32;
		}
		Big { neg: false, mag: m }
	}
	pub fn to_u128(&self) -> Option<u128> {
		if self.neg || self.mag.len() > 4 {
			return None;
		}
		Some(self.mag.iter().rev().fold(0, |a, x| (a << 32) | *x as u128))
	}
	pub fn from_i128(v: i128) -> Self {
		let b = Self::from_u128(v.unsigned_abs());
		Big::new(v < 0, b.mag)
	}
	pub fn from_limbs(l: &[u64]) -> Self {
		let mut m = vec![];
		for x in l {
			m.push(*x as u32);
			m.push((*x >> 32) as u32);
		}
		Big::new(false, m)
	}
	pub fn neg(&self) -> Self {
		Big::new(!self.neg, self.mag.clone())
	}
	pub fn add(&self, o: &Self) -> Self {
		if self.neg == o.neg {
			return Big::new(self.neg, add_mag(&self.mag, &o.mag));
		}
		match cmp_mag(&self.mag, &o.mag) {
			Ordering::Equal => Big::new(false, vec![]),
			Ordering::Greater => Big::new(self.neg, sub_mag(&self.mag, &o.mag)),
			Ordering::Less => Big::new(o.neg, sub_mag(&o.mag, &self.mag)),
		}
	}
	pub fn sub(&self, o: &Self) -> Self {
		self.add(&o.neg())
	}
	pub fn mul(&self, o: &Self) -> Self {
		let mut r = vec![0u32; self.mag.len() + o.mag.len() + 1];
		for i in 0..self.mag.len() {
			let mut c = 0u64;
			for j in 0..o.mag.len() {
				let t = self.mag[i] as u64 * o.mag[j] as u64 + r[i + j] as u64 + c;
				r[i + j] = t as u32;
				c = t >> 32;
			}
			let mut k = i + o.mag.len();
			while c > 0 {
				let t = r[k] as u64 + c;
				r[k] = t as u32;
				c = t >> 32;
				k += 1;
			}
		}
		Big::new(self.neg != o.neg, r)
	}
	pub fn div_floor(&self, o: &Self) -> Self {
		assert!(!o.neg && !o.mag.is_empty(), "div_floor needs a positive divisor");
		let mut q = vec![0u32; self.mag.len()];
		let mut rem = Big::from_u128(0);
		let one = Big::from_u128(1);
		let two = Big::from_u128(2);
		for i in (0..self.mag.len() * 32).rev() {
			rem = rem.mul(&two);
			if (self.mag[i / 32] >> (i % 32)) & 1 == 1 {
				rem = rem.add(&one);
			}
			if rem.cmp(o) != Ordering::Less {
				rem = rem.sub(o);
				q[i / 32] |= 1 << (i % 32);
			}
		}
		let q = Big::new(false, q);
		if !self.neg {
			q
		} else if rem.mag.is_empty() {
			q.neg()
		} else {
			q.add(&one).neg()
		}
	}
	pub fn cmp(&self, o: &Self) -> Ordering {
		match (self.neg, o.neg) {
			(false, true) => Ordering::Greater,
			(true, false) => Ordering::Less,
			(false, false) => cmp_mag(&self.mag, &o.mag),
			(true, true) => cmp_mag(&o.mag, &self.mag),
		}
	}
}

pub struct AssumeFailed;
pub struct CheckFailed(pub &'static str);

#[derive(Default)]
struct State {
	inputs: HashMap<String, u128>,
	missing: Vec<String>,
	checks: Vec<&'static str>,
	obs: Vec<(String, u128)>,
	allow: bool,
}
thread_local! { static ST: RefCell<State> = RefCell::new(State::default()); }

pub fn input(name: &'static str, idx: usize, bits: u32) -> u128 {
	let key = if idx == 0 { name.to_string() } else { format!("{name}.{idx}") };
	ST.with(|s| {
		let mut s = s.borrow_mut();
		match s.inputs.get(&key) {
			Some(v) => {
				if bits < 128 && *v >> bits != 0 {
					panic!("input {key} out of range");
				}
				*v
			}
			None => {
				s.missing.push(key);
				0
			}
		}
	})
}
pub fn chosen(f: &'static str, part: u32, a: u128, b: u128, c: u128, d: u128) -> u128 {
	let key = format!("{f}/{a},{b},{c},{d}/{part}");
	ST.with(|s| s.borrow().inputs.get(&key).copied().unwrap_or(0))
}
pub fn assume_failed() -> ! {
	std::panic::panic_any(AssumeFailed)
}
pub fn checked(b: bool, label: &'static str) {
	ST.with(|s| s.borrow_mut().checks.push(label));
	if !b {
		std::panic::panic_any(CheckFailed(label))
	}
}
pub fn observed(name: &'static str, v: u128) {
	ST.with(|s| s.borrow_mut().obs.push((name.to_string(), v)));
}
pub fn allow_panics(on: bool) {
	ST.with(|s| s.borrow_mut().allow = on);
}

/// Every run gets a thread of its own, and with it fresh thread-local state.
fn run_one(f: fn(), inputs: HashMap<String, u128>) -> String {
	let t = std::thread::Builder::new().stack_size(32 << 20).spawn(move || run_here(f, inputs)).unwrap();
	t.join().unwrap()
}
fn run_here(f: fn(), inputs: HashMap<String, u128>) -> String {
	ST.with(|s| *s.borrow_mut() = State { inputs, ..Default::default() });
	let r = std::panic::catch_unwind(f);
	let (checks, obs, allow, missing) = ST.with(|s| {
		let s = s.borrow();
		let mut c: Vec<String> = s.checks.iter().map(|x| x.to_string()).collect();
		c.dedup();
		(c.join("|"), s.obs.iter().map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join(","), s.allow, s.missing.join(","))
	});
	let out = match r {
		Ok(()) => "OK".to_string(),
		Err(e) => {
			if e.is::<AssumeFailed>() {
				"ASSUME".into()
			} else if let Some(c) = e.downcast_ref::<CheckFailed>() {
				format!("CHECK {}", c.0)
			} else {
				let m = e
					.downcast_ref::<String>()
					.cloned()
					.or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
					.unwrap_or("?".into());
				if allow {
					"QUIETPANIC".into()
				} else {
					format!("PANIC {}", m.replace('\n', " "))
				}
			}
		}
	};
	format!("{out}\t{checks}\t{obs}\t{missing}")
}

/// stdin: one run per line, `harness name=value name=value ...`; stdout: one result line per run.
pub fn main(table: &[(&'static str, fn())]) {
	std::panic::set_hook(Box::new(|_| {}));
	let mut line = String::new();
	loop {
		line.clear();
		if std::io::stdin().read_line(&mut line).unwrap_or(0) == 0 {
			break;
		}
		let mut it = line.split_whitespace();
		let Some(h) = it.next() else { continue };
		if h == "list" {
			for (n, _) in table {
				println!("{n}");
			}
			continue;
		}
		let mut m = HashMap::new();
		for kv in it {
			if let Some((k, v)) = kv.split_once('=') {
				m.insert(k.to_string(), v.parse::<u128>().expect("value"));
			}
		}
		match table.iter().find(|(n, _)| *n == h) {
			Some((_, f)) => println!("{}", run_one(*f, m)),
			None => println!("NOHARNESS"),
		}
	}
}
