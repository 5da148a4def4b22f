#!/bin/bash
# Builds the checkers.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd mc && cargo build --release --offline)
[ -f store/Cargo.toml ] && (cd store && cargo build --release --offline)
exit 0
