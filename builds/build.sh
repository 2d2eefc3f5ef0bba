#!/bin/bash
# Builds /repo's working tree in other ways than the checks do: for release, the command line tool for release, and for
# wasm32-unknown-unknown. The standard library for wasm32 is built from the sources that come with the nightly toolchain,
# without network. Writes target/builds/wasm.failed if the crate itself doesn't compile for wasm32.
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR
T="$V/target/builds"
mkdir -p "$T"
rm -f "$T/wasm.failed"
export RUSTFLAGS=-Awarnings
# the lock files are the repository's own
cp /repo/Cargo.lock "$V/builds/native/Cargo.lock"
cp /repo/Cargo.lock "$V/builds/wasm/Cargo.lock"
CARGO_TARGET_DIR="$T/native" cargo build --manifest-path "$V/builds/native/Cargo.toml" --release --offline || exit 1
CARGO_TARGET_DIR="$T/cli" cargo build --manifest-path /repo/Cargo.toml --bin adhoc_audio --release --locked --offline || exit 1

export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
LIB=$(rustc --print sysroot)/lib/rustlib/src/rust/library
[ -d "$LIB/vendor" ] || { echo "no sources of the standard library"; exit 1; }
mkdir -p "$T/vendor"
for d in "$LIB"/vendor/*; do ln -sfn "$d" "$T/vendor/$(basename "$d")"; done
# the few packages the crate needs, from cargo's own copies
python3 - "$T/vendor" <<'PY' || exit 1
import glob, json, os, re, sys, tarfile
vendor = sys.argv[1]
for n, v, c in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = [^\n]+\nchecksum = "([^"]+)"', open('/repo/Cargo.lock').read()):
    d = f'{vendor}/{n}-{v}'
    found = glob.glob(os.path.expanduser(f'~/.cargo/registry/cache/*/{n}-{v}.crate'))
    if os.path.exists(d) or not found:
        continue
    tmp = f'{vendor}/.part-{os.getpid()}'
    tarfile.open(found[0]).extractall(tmp)
    json.dump({'files': {}, 'package': c}, open(f'{tmp}/{n}-{v}/.cargo-checksum.json', 'w'))
    os.rename(f'{tmp}/{n}-{v}', d)
    os.rmdir(tmp)
PY
CARGO_TARGET_DIR="$T/wasm" cargo build --manifest-path "$V/builds/wasm/Cargo.toml" --release --offline --target wasm32-unknown-unknown \
    -Zbuild-std=std,panic_abort --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$T/vendor\"" >"$T/wasm.log" 2>&1
if [ $? != 0 ]; then
    cat "$T/wasm.log"
    grep -q 'could not compile `adhoc_audio`' "$T/wasm.log" || exit 1
    cp "$T/wasm.log" "$T/wasm.failed"
fi
exit 0
