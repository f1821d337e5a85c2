#!/bin/bash
# offline; builds the extraction tool. Everything else is rebuilt by each check from /repo's working tree.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
mkdir -p .build evidence
CARGO_TARGET_DIR=$PWD/.build/target-vpx cargo build --offline --manifest-path tools/vpx/Cargo.toml
for t in verus cargo-kani cargo rustc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
