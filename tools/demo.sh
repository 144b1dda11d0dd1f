#!/bin/bash
# Runs main.rs against the crate in the current directory; it panics if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tmp"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
flatdata = { path = "$repo" }
[workspace]
T
cd "$d" || exit 3
export TMPDIR="$d/tmp" CARGO_TARGET_DIR="$d/target"
export RUSTFLAGS="--cap-lints allow"
cargo run --offline -q >"$d/out" 2>&1
rc=$?
[ $rc -eq 0 ] || tail -5 "$d/out"
exit $rc
