#!/bin/bash
# Builds the math crate of the repository in the current directory (sources in place, offline stand-ins
# for its git dependencies) together with main.rs and runs it: main.rs fails if the behaviour is wrong.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" "$w/math"
cp -r "$here/stubs" "$here/Cargo.toml" "$here/Cargo.lock" "$w/"
cp "$here/demo.Cargo.toml" "$w/demo/Cargo.toml"
cp "$here/main.rs" "$w/demo/src/main.rs"
sed "s#@REPO@#$repo#" "$here/math.Cargo.toml" > "$w/math/Cargo.toml"
cd "$w"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS RUSTC
RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" cargo run -q --offline --locked -p demo
