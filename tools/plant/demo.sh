#!/bin/bash
# Run in /repo: builds demo.rs against it in a scratch directory and runs it.
# Exit 0: the demonstrated behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$dir/target" RUSTC_WRAPPER=
export RUSTFLAGS="--cfg constellation_verif"
mkdir "$dir/src" && cp "$here/demo.rs" "$dir/src/main.rs" && cp "$repo/Cargo.lock" "$dir/" || exit 3
sed "s#REPO#$repo#" > "$dir/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
arena = { path = "REPO/crates/datastructures/arena" }
better_borrow = { path = "REPO/crates/better_borrow" }
tp_client = { path = "REPO/client/rust" }
#DEPS
T
[ -f "$here/deps" ] && sed "s#REPO#$repo#" "$here/deps" >> "$dir/Cargo.toml"
cd "$dir" && cargo build --offline -q 2>&1 || exit 3
exec_bin="$dir/target/debug/demo"
cd "$dir" && timeout 200 "$exec_bin"
