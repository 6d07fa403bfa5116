#!/bin/bash
# check.sh <property>: rebuilds the simulator and the code under test from
# /repo's working tree, then searches. Exit 0 held, 1 violated, else an error.
cd "$(dirname "$0")" || exit 2
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true VERIF_DIR="$PWD"
log=$(mktemp) || exit 2
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1; then
  cat "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
if ! gcc -O2 -fPIC -shared -w -o sim/target/shim.so.$$ sim/shim/shim.c >"$log" 2>&1 || ! mv sim/target/shim.so.$$ sim/target/shim.so; then
  cat "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
[ -n "$1" ] || exit 0
exec sim/target/release/sim check "$1"
