#!/bin/bash
# Builds demo.rs (beside this script) against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export RUSTFLAGS=--cap-lints=allow CARGO_INCREMENTAL=0
T=$(mktemp -d /tmp/scc-demo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nscc = { path = "%s" }\nsdd = "4"\n[workspace]\n' "$R" > "$T/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" || exit 2
cargo build --release --offline -q 2> build.log || { tail -20 build.log; exit 3; }
timeout 200 ./target/release/demo
