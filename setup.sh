#!/bin/bash
# Builds every check, and the command line tool, so that the checks only rebuild what changed.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
mkdir -p "$V/out" "$V/evidence"
CARGO_TARGET_DIR="$V/target" RUSTFLAGS="--cfg mc_hooks -Awarnings" \
    cargo build --manifest-path "$V/mc/Cargo.toml" --bins --locked --offline || exit 1
CARGO_TARGET_DIR="$V/target/steps" RUSTFLAGS="--cfg mc_hooks -Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc" \
    cargo build --manifest-path "$V/mc/Cargo.toml" --bin c29 --target x86_64-unknown-linux-gnu --locked --offline || exit 1
CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_TARGET_DIR="$V/target/cli" \
    cargo build --manifest-path /repo/Cargo.toml --bin adhoc_audio --locked --offline || exit 1
"$V/builds/build.sh" || exit 1
"$V/builds/memory.sh" || exit 1
