#!/usr/bin/env python3
"""Writes the wrapper manifests of the pallets, the manifests of the harness crates and the workspace."""
import os, glob
D = os.path.dirname(os.path.abspath(__file__))
COMMON = '''codec = { package = "parity-scale-codec", version = "3.4.0", default-features = false, features = ["derive", "max-encoded-len", "std"] }
scale-info = { version = "2.1.1", default-features = false, features = ["derive"] }
serde = { version = "1.0.136", default-features = false, features = ["derive"] }
primitive-types = { version = "0.12.0", default-features = false }
log = { path = "%(u)slog" }
sp-arithmetic = { path = "%(u)s../harness/stubs/sp-arithmetic" }
sp-std = { path = "%(u)s../harness/stubs/sp-std" }
hydra-dx-math = { path = "%(u)s../harness/hydra-dx-math" }
sp-core = { path = "%(u)ssp-core" }
sp-runtime = { path = "%(u)ssp-runtime" }
frame-support = { path = "%(u)sframe-support" }
frame-system = { path = "%(u)sframe-system" }
orml-traits = { path = "%(u)sorml-traits" }
hydradx-traits = { path = "%(u)shydradx-traits" }
primitives = { path = "%(u)sprimitives" }
'''
W = '''# Builds /repo's %(n)s, unmodified and in place, against the offline stand-ins.
[package]
name = "pallet-%(n)s"
version = "0.0.0"
edition = "2021"

[lib]
path = "/repo/pallets/%(n)s/src/lib.rs"
doctest = false

[dependencies]
%(c)s%(x)s
[features]
default = ["std"]
std = []
'''
H = '''[package]
name = "h%(n)s"
version = "0.1.0"
edition = "2021"

[[bin]]
name = "h%(n)s"
path = "src/main.rs"

[dependencies]
%(c)shrt = { path = "../hrt" }
symx = { path = "../../harness/symx" }
%(x)s'''
PALLETS = {  # pallet -> other pallets its code uses
    'otc': [],
    'circuit-breaker': [],
    'dynamic-fees': [],
    'ema-oracle': [],
    'xyk': [],
    'bonds': [],
    'omnipool': [],
    'stableswap': [],
    'lbp': [],
    'staking': [],
    'referrals': [],
    'duster': [],
    'route-executor': [],
    'liquidity-mining': [],
    'claims': [],
    'transaction-pause': [],
    'asset-registry': [],
    'dca': [],
    'currencies': [],
    'collator-rewards': [],
    'dynamic-evm-fee': [],
    'xcm-rate-limiter': [],
    'xyk-liquidity-mining': ['liquidity-mining', 'xyk'],
    'omnipool-liquidity-mining': ['liquidity-mining', 'omnipool', 'ema-oracle'],
}
HARNESS = {  # harness crate -> pallets
    'otc': ['otc'],
    'cb': ['circuit-breaker'],
    'xyk': ['xyk'],
    'bonds': ['bonds'],
    'dyn': ['dynamic-fees'],
    'ema': ['ema-oracle'],
    'lbp': ['lbp'],
    'omni': ['omnipool'],
    'stable': ['stableswap'],
    'route': ['route-executor'],
    'lm': ['liquidity-mining'],
    'refs': ['referrals'],
    'dust': ['duster'],
    'stake': ['staking'],
    'dca': ['dca'],
    'coll': ['collator-rewards'],
    'evmfee': ['dynamic-evm-fee'],
    'xcm': ['xcm-rate-limiter'],
    'pause': ['transaction-pause'],
    'areg': ['asset-registry'],
    'xlm': ['xyk-liquidity-mining', 'liquidity-mining', 'xyk'],
    'olm': ['omnipool-liquidity-mining', 'liquidity-mining', 'omnipool', 'ema-oracle'],
}
EXTERN = {
    'collator-rewards': 'pallet-session = { path = "../../pallet-session" }\nsp-staking = { path = "../../sp-staking" }\n',
    'dynamic-evm-fee': 'pallet-evm = { path = "../../pallet-evm" }\n',
    'xcm-rate-limiter': 'xcm = { path = "../../xcm" }\npolkadot-parachain = { path = "../../polkadot-parachain" }\ncumulus-pallet-xcmp-queue = { path = "../../cumulus-pallet-xcmp-queue" }\n',
    'staking': 'pallet-democracy = { path = "../../democracy" }\n',  # other crates of a pallet
    'omnipool': 'bitflags = "1.3.2"\nimpl-trait-for-tuples = "0.2.2"\n',
    'stableswap': 'bitflags = "1.3.2"\n',
    'dca': 'rand = { path = "../../rand" }\nhydradx-adapters = { path = "../../hydradx-adapters" }\n',
    'referrals': 'hex-literal = "0.3.4"\n',
}
def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
for p, xs in PALLETS.items():
    x = ''.join('pallet-%s = { path = "../%s" }\n' % (y, y) for y in xs) + EXTERN.get(p, '')
    put('%s/wrap/%s/Cargo.toml' % (D, p), W % {'n': p, 'c': COMMON % {'u': '../../'}, 'x': x})
M = '''#![allow(clippy::all)]
#[macro_use]
#[path = "../../../harness/hmath/src/table.rs"]
mod table;
mod h;

fn main() {
	let mut t: Vec<(&'static str, fn())> = vec![];
	h::register(&mut t);
	symx::native::main(&t);
}
'''
for h, ps in HARNESS.items():
    if not os.path.exists('%s/h%s/src/main.rs' % (D, h)): put('%s/h%s/src/main.rs' % (D, h), M)
    x = ''.join('pallet-%s = { path = "../wrap/%s" }\n' % (y, y) for y in ps) + ('pallet-democracy = { path = "../democracy" }\n' if 'staking' in ps else '') + ('hydradx-adapters = { path = "../hydradx-adapters" }\n' if 'dca' in ps else '')
    for y in ps:
        if y in ('collator-rewards', 'dynamic-evm-fee', 'xcm-rate-limiter'): x += EXTERN[y].replace('../../', '../')
    put('%s/h%s/Cargo.toml' % (D, h), H % {'n': h, 'c': COMMON % {'u': '../'}, 'x': x})
put(D + '/democracy/Cargo.toml', '''# The types and hooks of /repo's pallet-democracy, which other pallets use.
[package]
name = "pallet-democracy"
version = "0.0.0"
edition = "2021"

[lib]
doctest = false

[dependencies]
%s
[features]
default = ["std"]
std = []
''' % (COMMON % {'u': '../'}))
ms = ['sp-staking', 'pallet-session', 'pallet-evm', 'polkadot-parachain', 'cumulus-pallet-xcmp-queue', 'xcm', 'democracy', 'rand', 'hydradx-adapters', 'hrt'] + ['h' + h for h in HARNESS] + ['wrap/' + p for p in PALLETS] + ['sp-core', 'sp-runtime', 'frame-support', 'frame-support-procedural', 'frame-system', 'orml-traits', 'hydradx-traits', 'primitives', 'polkadot-primitives', 'log']
put(D + '/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [%s]\n\n[profile.dev]\ndebug = false\nincremental = false\noverflow-checks = true\ndebug-assertions = true\n' % ', '.join('"%s"' % m for m in ms))
