#!/bin/bash
# builds the demonstration against the repository in the current directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here"/*.rs "$w/src/" && cp "$here/Cargo.lock" "$w/" || exit 2
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml" || exit 2
cd "$w" || exit 2
CARGO_TARGET_DIR="$w/target" CARGO_NET_OFFLINE=true cargo build -q --offline || exit 2
"$w/target/debug/demo"
