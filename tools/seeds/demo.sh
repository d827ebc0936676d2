#!/bin/bash
# Build and run main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/run"
cp "$here/main.rs" "$here/prelude.rs" "$work/src/" || exit 99
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cbm = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
EOF
cd "$work" || exit 99
export CARGO_TARGET_DIR="$work/target"
EXTRA
cargo build --offline -q 2>"$work/log" || { cat "$work/log" >&2; exit 99; }
cd "$work/run" || exit 99
timeout 120 "$work/target/debug/demo"
