#!/bin/bash
# Build the harness (and with it simmons/cbm and cdisk) from /repo's working tree, then run one
# check or replay:  run.sh check ID | replay FILE | build
set -u
if [ "${1:-}" = replay ] && [ -n "${2:-}" ]; then set -- replay "$(realpath "$2")"; fi
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
cd "$(dirname "$0")/harness" || exit 3
if ! out=$(cargo build --release --offline --bins 2>&1); then
    echo "$out" >&2
    echo "build failed" >&2
    exit 3
fi
[ "${1:-}" = build ] && exit 0
# Keep a runaway allocation from taking the machine down.
ulimit -v 12000000 2>/dev/null
exec ../target/release/harness "$@"
