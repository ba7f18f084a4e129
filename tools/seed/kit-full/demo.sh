#!/bin/bash
# Run in the root of the repository: compiles its crates against the stand-ins beside this file, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2; trap 'rm -rf "$t"' EXIT
cp -r "$here/shims" "$here/harness" "$t"; chmod -R u+w "$t"
for f in "$t"/harness/mirror/*/Cargo.toml "$t"/harness/demo/Cargo.toml; do sed -i "s#\"[./]*/repo/#\"$repo/#" "$f"; done
cd "$t/harness/demo" && CARGO_TARGET_DIR="$t/target" cargo build --release --offline --quiet && cd "$t" && mkdir scratch && cd scratch && "$t/target/release/demo"
