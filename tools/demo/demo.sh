#!/bin/bash
# runs main.rs against the contracts in the current directory (/repo); all build output stays in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$D/main.rs" "$D/mock.rs" "$W/src/" && sed "s#@REPO@#$R#g" "$D/Cargo.toml.in" > "$W/Cargo.toml" && cp "$R/Cargo.lock" "$W/Cargo.lock" || exit 2
cd "$W" && CARGO_TARGET_DIR="$W/t" CARGO_INCREMENTAL=0 cargo run -q --offline
