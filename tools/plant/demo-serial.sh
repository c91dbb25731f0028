#!/bin/bash
# Run in /repo: builds demo.rs with its serializer in a scratch directory and runs it. What the
# serializer needs and cannot be had offline is beside this file.
# Exit 0: the demonstrated behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$dir/target" RUSTC_WRAPPER=
export RUSTFLAGS="--cfg constellation_verif"
mkdir -p "$dir/src" "$dir/repo/serialize/rust" && cp -r "$here/stand-ins" "$dir/" || exit 3
ln -s "$repo/client/serialize/flatbuffers" "$dir/repo/serialize/flatbuffers"
cp "$here/demo.rs" "$dir/src/main.rs" && cp "$here/demo.lock" "$dir/Cargo.lock" || exit 3
sed "s#/repo/#$repo/#" "$here/serializer.toml" > "$dir/repo/serialize/rust/Cargo.toml"
sed "s#REPO#$repo#" > "$dir/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
arena = { path = "REPO/crates/datastructures/arena" }
tp_client = { path = "REPO/client/rust" }
tp_serialize = { path = "repo/serialize/rust" }
flatbuffers = "22"
[patch.crates-io]
flatbuffers = { path = "stand-ins/flatbuffers" }
bimap = { path = "stand-ins/bimap" }
flatc-rust = { path = "stand-ins/flatc-rust" }
T
cd "$dir" && cargo build --offline -q 2>&1 || exit 3
cd "$dir" && timeout 200 "$dir/target/debug/demo"
