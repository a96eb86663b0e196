#!/bin/bash
# builds the bounded harness against /repo and the extractor (checks rebuild both incrementally)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/bounded" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$PWD/target" cargo build -q --offline --bin check || exit 1
cd "$here/extract" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$PWD/target" cargo build -q --release --offline
