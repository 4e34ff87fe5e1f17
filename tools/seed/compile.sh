#!/bin/bash
# good.rs must compile against the crate in the current directory, bad.rs must not.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export RUSTFLAGS=--cap-lints=allow CARGO_INCREMENTAL=0
T=$(mktemp -d /tmp/scc-demo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src/bin"
cp "$D/good.rs" "$T/src/bin/good.rs"
[ -f "$D/bad.rs" ] && cp "$D/bad.rs" "$T/src/bin/bad.rs"
printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nscc = { path = "%s" }\nsdd = "4"\n[workspace]\n' "$R" > "$T/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cd "$T" || exit 2
cargo check --offline -q --bin good 2> good.log || { tail -20 good.log; echo "a valid program is refused"; exit 3; }
if [ -f "$D/bad.rs" ] && cargo check --offline -q --bin bad 2> bad.log; then
    echo "a program that must be refused compiles"
    exit 4
fi
exit 0
