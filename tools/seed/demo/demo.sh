#!/bin/bash
# Builds src/main.rs against the crate in the current directory and runs it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$D/src" "$D/stubs" "$D/Cargo.lock" "$T/" || exit 2
sed "s#@REPO@#$PWD#" "$D/Cargo.toml" > "$T/Cargo.toml"
cd "$T" && cargo build --offline --quiet --target-dir "$T/target" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
timeout 120 "$T/target/debug/demo"
