#!/bin/bash
# builds the programs of the crate in the current directory (with feature gpl) and runs case.sh (beside this file) in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/c/src" "$T/run/bin" "$T/run/externals/multi-ch-constructor/build"
ln -s "$R/src/bin/osmgraphing" "$T/c/src/osmgraphing"
ln -s "$R/src/bin/multi-ch-constructor.rs" "$T/c/src/multi-ch-constructor.rs"
# a stand-in of the C++ library, which can not be built here
cp "$R/Cargo.lock" "$T/c/Cargo.lock"
cat > "$T/c/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
description = "demo"
authors = ["demo"]
[workspace]
[features]
default = ["gpl"]
gpl = []
[[bin]]
name = "osmgraphing"
path = "src/osmgraphing/mod.rs"
[[bin]]
name = "multi-ch-constructor"
path = "src/multi-ch-constructor.rs"
[dependencies]
osmgraphing = { path = "$R", features = ["custom", "gpl"] }
chrono = "0.4"
clap = "2.33"
log = "0.4"
progressing = "3"
rand = "0.7"
rand_pcg = "0.2"
serde = { version = "1", features = ["derive"] }
[patch.crates-io]
nd-triangulation = { path = "$D/nd-triangulation" }
X
cd "$T/c" && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$T/t" $CARGO build --offline > "$T/log" 2>&1 || { tail -8 "$T/log"; exit 9; }
cd "$T/run"
# stand-ins of the started programs: they log their arguments; multi-ch copies the graph; one of them fails if its name is in FAIL
cat > bin/cmake <<'X'
#!/bin/bash
echo "cmake $*" >> "$LOG"
case "$FAIL" in configure) [ "$1" = -Bbuild ] && exit 1;; compile) [ "$1" = --build ] && exit 1;; esac
exit 0
X
cat > externals/multi-ch-constructor/build/multi-ch <<'X'
#!/bin/bash
echo "multi-ch $*" >> "$LOG"
[ "$FAIL" = contract ] && exit 1
while [ $# -gt 0 ]; do case "$1" in --text) a=$2;; --write) b=$2;; esac; shift; done
cp "$a" "$b"
X
chmod +x bin/cmake externals/multi-ch-constructor/build/multi-ch
cat > parsing.part <<'X'
parsing:
  map-file: 'g.fmi'
  nodes:
  - meta: { info: 'NodeId', id: 'node-id' }
  - metric: { unit: 'Latitude', id: 'lat' }
  - metric: { unit: 'Longitude', id: 'lon' }
  edges:
    will_normalize_metrics_by_mean: false
    data:
    - meta: { info: 'EdgeId', id: 'edge-id' }
    - meta: { info: 'SrcId', id: 'src-id' }
    - meta: { info: 'DstId', id: 'dst-id' }
X
printf '3\n4\n4 48.5 9.25\n5 48.75 9.5\n6 49 9.75\n0 4 5 1\n1 5 6 2\n2 6 4 4\n3 4 6 8\n' > g.fmi
printf '2\n4 6 2\n6 5 1\n' > in.route-pairs
export LOG=$PWD/log PATH=$PWD/bin:$PATH B=$T/t/debug FAIL=
touch log
. "$D/case.sh"
