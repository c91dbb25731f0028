#!/bin/bash
# Run in /repo: builds demo.rs with the circle demo in a scratch directory and runs it. The parts of
# the game engine that cannot be had offline are beside this file.
# Exit 0: the demonstrated behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$dir/target" RUSTC_WRAPPER=
export RUSTFLAGS="--cfg constellation_verif"
mkdir "$dir/src" && cp -r "$here/stand-ins" "$dir/" || exit 3
cp "$here/demo.rs" "$dir/src/main.rs" && cp "$here/demo.lock" "$dir/Cargo.lock" || exit 3
sed "s#REPO#$repo#" > "$dir/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
tp_client = { path = "REPO/client/rust" }
circle_game = { path = "REPO/demos/circle_game", default-features = false }
bevy = { version = "0.6", default-features = false, features = ["render"] }
bevy_prototype_lyon = "0.4"
[patch.crates-io]
bevy = { path = "stand-ins/bevy" }
bevy_prototype_lyon = { path = "stand-ins/lyon" }
T
cd "$dir" && cargo build --offline -q 2>&1 || exit 3
cd "$dir" && timeout 200 "$dir/target/debug/demo"
