#!/bin/sh
# builds the MIR extraction driver into /verif/build/driver
set -e
cd "$(dirname "$0")/.."
RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true cargo build -q --offline --manifest-path driver/Cargo.toml --target-dir build/driver
test -x build/driver/debug/mirdump
