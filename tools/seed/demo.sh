#!/bin/bash
# Runs the real parser (the crate in the current directory) on every case beside this script and
# compares what a caller sees with the recorded meaning of that case.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
mkdir -p "$tmp/src"
cp "$here/dump_main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yary = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null
CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings cargo build -q --offline --manifest-path "$tmp/Cargo.toml" || exit 2
bad=0
for c in "$here"/case*.yaml; do
    timeout 60 "$tmp/target/debug/demo" "$c" "$(cat "$here/modes.txt")" > "$tmp/out" 2> "$tmp/err"
    if ! cmp -s "$tmp/out" "${c%.yaml}.expected"; then
        echo "differs: $(basename "$c")"; diff "$tmp/out" "${c%.yaml}.expected" | head -20; tail -3 "$tmp/err"; bad=1
    fi
done
exit $bad
