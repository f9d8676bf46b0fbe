#!/bin/bash
# Builds the simulator from /repo's current working tree.
cd "$(dirname "$0")/harness" || exit 2
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.91.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$(dirname "$PWD")/build/target" RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
python3 gen.py || exit 2
exec cargo build --release --offline
