#!/bin/bash
# Builds the framework offline from the committed files.
set -eu
cd "$(dirname "$0")"
mkdir -p build evidence
export CARGO_TARGET_DIR=$PWD/build/harness CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=${NTV_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
(cd harness && cargo build --release --offline --locked)
