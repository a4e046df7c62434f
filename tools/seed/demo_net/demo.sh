#!/bin/bash
# Builds src/main.rs against the crate in the current directory, and the HTTP server of that crate, and runs it (on the loopback interface only).
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -r "$D/src" "$D/stubs" "$D/Cargo.lock" "$T/" || exit 2
sed "s#@REPO@#$R#" "$D/Cargo.toml" > "$T/Cargo.toml"
if [ -f "$D/server" ]; then
    cargo build --offline --quiet --bin http_proof_gen --features build_server --manifest-path "$R/Cargo.toml" --target-dir "$T/server" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
fi
cd "$T" && cargo build --offline --quiet --target-dir "$T/target" > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
SERVER="$T/server/debug/http_proof_gen" timeout 60 "$T/target/debug/demo"
