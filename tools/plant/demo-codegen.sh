#!/bin/bash
# Run in /repo: builds its generators of C# code from a copy in a scratch directory, where they
# also write what they generate, and runs what is in steps.sh there.
# Exit 0: the demonstrated behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$dir/target" RUSTC_WRAPPER=
mkdir -p "$dir/client" "$dir/crates/rsharp" || exit 3
cp -r "$repo/client/codegen_wrapped" "$dir/client/" && cp -r "$repo/crates/rsharp/codegen" "$dir/crates/rsharp/" || exit 3
cp "$here/demo.lock" "$dir/Cargo.lock" || exit 3
printf '[workspace]\nmembers = ["client/codegen_wrapped", "crates/rsharp/codegen"]\nresolver = "2"\n[profile.dev]\ndebug = 0\n' > "$dir/Cargo.toml"
cd "$dir" && cargo build --offline -q 2>&1 || exit 3
wrapped=$dir/client/cs/src/generated/wrapped boxes=$dir/crates/rsharp/cs/src/generated
wrap() { "$dir/target/debug/cs_codegen" "$@" > /dev/null 2>&1; }
box() { "$dir/target/debug/rsharp_codegen" "$@" > /dev/null 2>&1; }
wrong() { echo "WRONG: $1"; exit 1; }
. "$here/steps.sh"
