#!/bin/bash
# Builds the library harness against the tree at $PICA_REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
repo=${PICA_REPO:-/repo}
dir=${HARNESS_DIR:-$here/../.work/harness}
. /opt/vp/env.sh >/dev/null 2>&1
set -e
mkdir -p "$dir/src"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$dir/Cargo.toml.new"
cmp -s "$dir/Cargo.toml.new" "$dir/Cargo.toml" || cp "$dir/Cargo.toml.new" "$dir/Cargo.toml"
for f in "$here"/src/*.rs; do
  cmp -s "$f" "$dir/src/$(basename "$f")" || cp "$f" "$dir/src/"
done
[ -f "$dir/Cargo.lock" ] || cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cd "$dir"
CARGO_TARGET_DIR="$dir/target" cargo build --offline
