#!/bin/sh
# builds the replay machine against /repo once (every check rebuilds it)
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays .work
CARGO_TARGET_DIR=target cargo build --offline --quiet --manifest-path harness/Cargo.toml
