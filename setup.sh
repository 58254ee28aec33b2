#!/bin/bash
# builds the extractor, warms the expansion crate and the concrete drivers
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
T="$PWD/target"; mkdir -p "$T"
(cd tools/vpx && CARGO_TARGET_DIR="$T/tools" cargo build --offline -q) || exit 1
(cd tools/expand && CARGO_TARGET_DIR="$T/expand" cargo +nightly rustc --offline -q --features uuid,chrono --lib -- -Zunpretty=expanded >/dev/null)
for a in arms types; do (cd tools/$a && CARGO_TARGET_DIR="$T/$a" cargo +nightly rustc --offline -q --lib -- -Zunpretty=expanded >/dev/null); done
mkdir -p "$T/gen_stub"; echo "fn main() {}" > "$T/gen_stub/gen.rs"; export VP_GEN_DIR="$T/gen_stub"
for h in harness/*/; do n=$(basename "$h"); (cd "$h" && CARGO_TARGET_DIR="$T/$n" cargo build --offline -q); done
exit 0
