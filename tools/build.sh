#!/bin/bash
# build.sh <bin crate> : builds mirdump (once) and the harness crate against /repo's working tree,
# leaving the MIR dump in target/dump/<crate>.json and the native binary in target/h/debug/<crate>.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
C=$1
NR=$(rustup which --toolchain nightly rustc)
NT=${NR%/bin/rustc}
export LD_LIBRARY_PATH=$NT/lib CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
mkdir -p "$V/target/dump"
exec 9>"$V/target/lock"
flock 9
(cd "$V/mirdump" && CARGO_TARGET_DIR="$V/target/mirdump" RUSTUP_TOOLCHAIN=nightly cargo build --offline --quiet)
W=$V/harness; D=hydra-dx-math
[ -d "$W/$C" ] || { W=$V/pal; D="hydra-dx-math hydradx-traits primitives pallet-*"; }
cd "$W"
# cargo's own freshness check is by mtime; touching the root makes the dump always regenerate.
touch "$W/$C/src/main.rs"
for d in $D; do rm -rf "$V"/target/h/debug/.fingerprint/$d-*; done
MIRDUMP_CRATE=$C MIRDUMP_OUT=$V/target/dump/$C.json MIRDUMP_STOP=$V/engine/stop.txt \
RUSTC_WRAPPER=$V/target/mirdump/debug/mirdump RUSTC=$NR RUSTUP_TOOLCHAIN=1.75.0 \
CARGO_TARGET_DIR=$V/target/h cargo build --offline --locked -p "$C" 2>&1
