#!/bin/bash
# Builds main.rs against /repo's crates in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$w/" && cp "$here/main.rs" "$w/src/main.rs" || exit 2
cd "$w" && timeout 200 cargo build --offline --quiet 2>build.log || { tail -30 build.log; exit 3; }
timeout 60 ./target/debug/demo
