#!/bin/bash
# Build what every check needs (each check rebuilds it if it is missing).
cd "$(dirname "$0")"
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo +stable build --offline --release --manifest-path specx/Cargo.toml --target-dir build/specx || exit 1
python3 check.py C01 || true
exit 0
