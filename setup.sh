#!/bin/sh
# Builds every harness part once (checks rebuild what they need themselves).
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
for d in harness/h[0-9]*; do (cd "$d" && cargo build --release --offline --quiet); done
python3 tools/build_wasm.py
