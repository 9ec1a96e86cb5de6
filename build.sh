#!/bin/bash
# build.sh <feature> <outdir>: builds the engine and the harness of one property (bitcode + native binary)
# from /repo's current tree. Leaves <outdir>/harness.bc and <outdir>/harness.
set -e
V=$(cd "$(dirname "$0")" && pwd)
FEAT=$1
OUT=$2
T=$V/build/target
mkdir -p "$OUT" "$T"
OUT=$(cd "$OUT" && pwd)
make -s -j4 -C "$V/engine" > "$OUT/engine.log" 2>&1 &
MK=$!
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$T" CARGO_INCREMENTAL=0
gcc -O1 -c "$V/harness/sym.c" -o "$T/sym.o"
cd "$V/harness"
if [ "$FEAT" = c23 ] || [ "$FEAT" = c24 ]; then
  # modules using threads, channels or other programs, which are the ones of src/mstd.rs
  G=$V/build/gen; rm -rf "$G"; mkdir -p "$G/osmgraphing" "$G/multi_ch_constructor"
  S=/repo/src/bin/osmgraphing
  std() { mkdir -p "$(dirname "$2")"; sed -E "$3" "$1" | sed -E 's/(^|[^A-Za-z0-9_:])(::)?std::/\1crate::mstd::/g' > "$2"; }
  M='s/\bcrate::/crate::bins::osmgraphing_bin::/g; s/(::)?\bosmgraphing::/crate::facade::/g; s/\.get_matches\(\)/.get_matches_from(crate::mstd::env::args())/; s/^fn main\(\)/pub fn main()/; s/^mod /pub mod /; s/(::)?\blog::/crate::mlog::/g'
  for f in $(cd $S && find . -name '*.rs'); do std "$S/$f" "$G/osmgraphing/$f" "$M"; done
  sed -i -E 's/\bpanic!/crate::program_fails!/g' "$G/osmgraphing/mod.rs"
  std /repo/src/bin/multi-ch-constructor.rs "$G/multi_ch.rs" "${M/osmgraphing_bin/multi_ch_bin}; s/\bpanic!/crate::program_fails!/g"
  for f in $(cd /repo/src/multi_ch_constructor && find . -name '*.rs'); do std "/repo/src/multi_ch_constructor/$f" "$G/multi_ch_constructor/$f" 's/\bcrate::/osmgraphing::/g; s/\bosmgraphing::multi_ch_constructor\b/crate::facade::multi_ch_constructor/g'; done
  echo 'pub use osmgraphing::multi_ch_constructor::Config;' > "$G/multi_ch_constructor/configs.rs"
fi
$CARGO rustc --offline --release --no-default-features --features "$FEAT" --bin harness -- --emit=llvm-bc,link -C link-arg="$T/sym.o" -C link-arg=-Wl,--export-dynamic-symbol=getrandom -A warnings
B=$(find "$T/release/deps" -samefile "$T/release/harness" -name 'harness-*' | head -1)
cp -f "$T/release/harness" "$OUT/harness"
cp -f "$B.bc" "$OUT/harness.bc"
wait $MK || { cat "$OUT/engine.log"; exit 1; }
