#!/bin/bash
# Runs with the repository as working directory; everything it writes goes to a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here"/*.rs "$work"/
cp "$repo/Cargo.lock" "$work/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work" && cargo run --offline -q
