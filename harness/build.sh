#!/bin/bash
# Builds the harness against /repo's working tree, offline, with the compiler /repo pins.
# usage: build.sh TARGET_DIR
set -e
cd "$(dirname "$0")"
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
P=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$P/rustc RUSTDOC=$P/rustdoc CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS SPDM_CONFIG RUSTC_WORKSPACE_WRAPPER RUSTC_WRAPPER
export CARGO_TARGET_DIR="$1"
exec cargo build --offline --quiet
