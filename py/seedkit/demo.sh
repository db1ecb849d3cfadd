#!/bin/bash
# cwd: the repository.  Compiles demo.ps with its compiler, links main.rs against the result, runs it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/g/src"
cp "$D/gen.rs" "$T/g/src/main.rs"; cp "$R/Cargo.lock" "$T/g/Cargo.lock" 2>/dev/null
cat > "$T/g/Cargo.toml" <<X
[package]
name = "gen"
version = "0.1.0"
edition = "2021"
[dependencies]
protospec-build = { path = "$R/protospec-build" }
quote = "1.0"
proc-macro2 = "1.0"
[workspace]
X
export CARGO_TARGET_DIR="$T/t"
cargo build --offline --quiet --manifest-path "$T/g/Cargo.toml" > "$T/log" 2>&1 || { tail -20 "$T/log"; echo "demo: generator does not build"; exit 8; }
timeout 60 "$T/t/debug/gen" "$D/demo.ps" "$T/gen_out.rs" 2>&1 | tail -5
[ "${PIPESTATUS[0]}" = 0 ] || { echo "demo: compiler failed"; exit 7; }
[ -f "$D/main.rs" ] || exit 0
GEN="$T/gen_out.rs" rustc --edition 2021 -A warnings -o "$T/demo" "$D/main.rs" > "$T/log" 2>&1 || { grep -m5 -A6 '^error' "$T/log"; echo "demo: generated code does not build"; exit 6; }
timeout 60 "$T/demo"
