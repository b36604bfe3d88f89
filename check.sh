#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's working tree, then runs one check. The
# second build is the same with coverage counters in nom-sparql, for the guided
# search, which is left out where that cannot be built.
cd "$(dirname "$0")/harness" || exit 3
export CARGO_NET_OFFLINE=true NSV_COV=$PWD/target/cov/release/nsv
log=$(mktemp)
CARGO_TARGET_DIR=target/cov RUSTC_WRAPPER=$PWD/cov-wrapper.sh cargo build --release --offline >"$log.cov" 2>&1 &
cov=$!
if ! cargo build --release --offline >"$log" 2>&1; then
    cat "$log" >&2
    wait "$cov"
    rm -f "$log" "$log.cov"
    exit 3
fi
wait "$cov" || export NSV_COV=/nowhere
rm -f "$log" "$log.cov"
export NSV_DIR="$(cd .. && pwd)"
exec target/release/nsv check "$1"
