#!/bin/bash
# Adds the tests of test.rs to one module of a scratch copy of the crate and runs them.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=1.85.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$S/target"
unset RUSTFLAGS XDG_RUNTIME_DIR
mkdir -p "$S/repo" "$S/target/debug"
cp -a "$R/Cargo.toml" "$R/Cargo.lock" "$R/libshpool" "$R/shpool" "$R/shpool-protocol" "$S/repo/"
[ -e "$R/rust-toolchain.toml" ] && cp -a "$R/rust-toolchain.toml" "$S/repo/"
for d in deps build .fingerprint; do [ -d "$R/target/debug/$d" ] && cp -a "$R/target/debug/$d" "$S/target/debug/"; done
cat "$D/test.rs" >> "$S/repo/$(cat "$D/module")"
cd "$S/repo" || exit 2
out=$(timeout 280 cargo test --offline --locked -p libshpool --lib --all-features vp_demo 2>&1)
rc=$?
echo "$out" | tail -30
[ $rc -eq 0 ] && echo "$out" | grep -q "test result: ok. [1-9]"
