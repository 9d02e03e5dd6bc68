#!/bin/bash
# Runs demo.rs against the code in the current directory (cwd = the repository, already built), in a scratch copy
# that is removed afterwards. Exit 0 iff it finishes without panicking.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-04-01 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUST_BACKTRACE=0
cp -r "$repo/tooling/minirust-rs" "$t/minirust-rs" && cp -r "$repo/tooling/miniutil" "$t/miniutil" && cp "$repo/tooling/Cargo.lock" "$t/" || exit 3
unit=$(sed -n '1s#^// unit: *##p' "$here/demo.rs")
mkdir -p "$t/h/src"
if [ "$unit" = prog ]; then
  cp "$here/demo.rs" "$t/h/src/demo.rs"
  printf '#![allow(unused)]\n#![feature(never_type)]\n#![recursion_limit = "256"]\nmod demo;\nfn main() { demo::run() }\n' > "$t/h/src/main.rs"
else
  cp "$here/demo.rs" "$t/minirust-rs/src/demo.rs"
  printf '\n#[path = "demo.rs"]\npub mod demo;\n' >> "$t/minirust-rs/src/$unit.rs"
  printf 'fn main() { minirust_rs::%s::demo::run() }\n' "$unit" > "$t/h/src/main.rs"
fi
printf '[package]\nname = "h"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nminirust-rs = { path = "../minirust-rs" }\nminiutil = { path = "../miniutil" }\nserde_json = "1"\n' > "$t/h/Cargo.toml"
printf '[workspace]\nresolver = "2"\nmembers = ["miniutil", "h"]\nexclude = ["minirust-rs"]\n' > "$t/Cargo.toml"
cargo build --quiet --offline --manifest-path "$t/h/Cargo.toml" --target-dir "$t/target" > "$t/log" 2>&1 || { tail -40 "$t/log"; echo "demo does not build"; exit 4; }
timeout 200 "$t/target/debug/h"
