#!/bin/bash
# Run in the root of the repository: compiles its modules with main.rs in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/Cargo.toml.in" "$t/Cargo.toml"; sed "s#@REPO@#$repo#g" "$here/main.rs" > "$t/src/main.rs"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline --quiet
