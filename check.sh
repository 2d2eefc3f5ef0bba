#!/bin/bash
# ./check.sh C01 [--replay FILE | --list]   (tier from VERIF_TIER, default quick)
# Builds the check for one property against /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check.
V=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
BIN=$(echo "$ID" | tr A-Z a-z)
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$V/target"
export RUSTFLAGS="--cfg mc_hooks -Awarnings"
TARGET=()
if [ "$ID" = C29 ]; then
    # a counter in every basic block
    export CARGO_TARGET_DIR="$V/target/steps"
    export RUSTFLAGS="$RUSTFLAGS -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
    TARGET=(--target x86_64-unknown-linux-gnu)
fi
export MC_VERIF_DIR="$V" RUST_BACKTRACE=0
mkdir -p "$V/out" "$V/evidence"
LOG="$V/out/build-$ID.log"
if ! cargo build --manifest-path "$V/mc/Cargo.toml" --bin "$BIN" "${TARGET[@]}" --locked --offline >"$LOG" 2>&1; then
    echo "ERROR building the check for $ID failed:"; tail -40 "$LOG"
    exit 2
fi
if [ "$ID" = C14 ] || [ "$ID" = C30 ]; then
    if ! env -u RUSTFLAGS CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_TARGET_DIR="$V/target/cli" cargo build --manifest-path /repo/Cargo.toml --bin adhoc_audio --locked --offline >"$LOG" 2>&1; then
        echo "ERROR building the command line tool failed:"; tail -40 "$LOG"
        exit 2
    fi
    export MC_CLI="$V/target/cli/debug/adhoc_audio"
fi
if [ "$ID" = C30 ]; then
    if ! "$V/builds/build.sh" >"$LOG" 2>&1; then
        echo "ERROR building in other ways failed:"; tail -40 "$LOG"
        exit 2
    fi
    export MC_BUILDS="$V/target/builds"
fi
if [ "$ID" = C31 ]; then
    if ! "$V/builds/memory.sh" >"$LOG" 2>&1; then
        echo "ERROR building the watched programs failed:"; tail -40 "$LOG"
        exit 2
    fi
fi
[ "$ID" = C29 ] && exec "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/$BIN" "$@"
exec "$V/target/debug/$BIN" "$@"
