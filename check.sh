#!/bin/bash
# usage: check.sh <property>
# Builds the checkers against /repo's working tree and decides one property.
set -u
root=$(cd "$(dirname "$0")" && pwd)
id=$1
cd "$root"
export CARGO_NET_OFFLINE=true RUSTFLAGS=
mkdir -p evidence
case $id in
  P15|P16) crate=store ;;
  *) crate=mc ;;
esac
log=$(mktemp)
if ! (cd $crate && cargo build --release --offline) >"$log" 2>&1; then
  tail -50 "$log" >&2
  rm -f "$log"
  echo "ERROR: $crate does not build against /repo" >&2
  exit 3
fi
rm -f "$log"
ulimit -v 16000000 2>/dev/null
exec $crate/target/release/$crate check "$id" "$root"
