#!/bin/bash
# Run with cwd = the repository, after it was built. Exit 0: the behaviour is right; nonzero: broken.
# Builds a small program against the repository's crates in a scratch directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d /tmp/demo.XXXXXX)" || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" >"$tmp/Cargo.toml"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" || exit 9
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q 2>"$tmp/build.log" || { tail -40 "$tmp/build.log"; exit 8; }
timeout -k 2 120 "$tmp/target/debug/demo"
