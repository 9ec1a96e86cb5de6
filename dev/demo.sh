#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/c/src" "$T/run"
cp "$D/main.rs" "$T/c/src/main.rs"
cp "$R/Cargo.lock" "$T/c/Cargo.lock"
cat > "$T/c/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
osmgraphing = { path = "$R", features = ["custom"] }
kissunits = "2"
smallvec = "1"
osmpbfreader = "0.13"
serde = { version = "1", features = ["derive"] }
X
cd "$T/c" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/t" $CARGO build --offline > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 9; }
cd "$T/run" && timeout 60 "$T/t/debug/demo"
