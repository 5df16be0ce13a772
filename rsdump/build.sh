#!/bin/bash
# builds the syntax-tree dumper (offline, pinned) into /verif/work
set -e
d=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$d/../work/rsdump-target"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
cargo build --offline --locked -q --manifest-path "$d/Cargo.toml"
