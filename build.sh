#!/bin/bash
# Builds the harness against /repo's working tree; prints the last lines on failure.
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_TARGET_DIR=/verif/target
cd /verif/harness || exit 2
mkdir -p /verif/target /verif/work
cp Cargo.lock /verif/work/Cargo.lock.orig 2>/dev/null
cargo build --offline --bins > /verif/target/build.log 2>&1
rc=$?
[ $rc -ne 0 ] && { grep -E '^error' -A 12 /verif/target/build.log | head -60; tail -5 /verif/target/build.log; }
cp /verif/work/Cargo.lock.orig Cargo.lock
exit $rc
