#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
# Exit 0: the behaviour is right; anything else: it is not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
target="${DEMO_TARGET:-$work/target}"
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"

[workspace]

[dependencies]
nom-sparql = { path = "$repo" }
T
cd "$work" || exit 2
RUSTFLAGS="--cfg nom_sparql_verif -Awarnings" CARGO_TARGET_DIR="$target" cargo build --offline --quiet || exit 3
timeout 60 "$target/debug/demo"
