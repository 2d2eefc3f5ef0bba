#!/bin/bash
# Builds the program that runs histories where the memory is watched: for Miri, and with an address sanitizer.
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR
M="$V/builds/memory"
cp /repo/Cargo.lock "$M/Cargo.lock"
mkdir -p "$V/target/memory"
RUSTFLAGS="-Awarnings --cfg mc_hooks -Zsanitizer=address" CARGO_TARGET_DIR="$V/target/memory/asan" \
    cargo build --manifest-path "$M/Cargo.toml" --release --offline --target x86_64-unknown-linux-gnu || exit 1
# (built by its first run)
echo "4 0" | RUSTFLAGS="-Awarnings --cfg mc_hooks" MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$V/target/memory/miri" \
    env -u RUSTC_WRAPPER cargo miri run --release --manifest-path "$M/Cargo.toml" --offline >"$V/target/memory/first" || exit 1
[ "$(cat "$V/target/memory/first")" = 1 ] || exit 1
