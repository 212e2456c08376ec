cd /verif/pal; export CARGO_NET_OFFLINE=true; RUSTUP_TOOLCHAIN=1.75.0 CARGO_TARGET_DIR=/tmp/palt cargo build --offline -p $1 2>&1 | grep -A9 '^error' | head -${2:-60}
