# Sourced by the checks: the toolchain and where things are built.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER= RUSTFLAGS="--cfg constellation_verif" CARGO_TARGET_DIR=${VERIF_DIR:-/verif}/target
unset CARGO_ENCODED_RUSTFLAGS HEADERS_TO_STDOUT
