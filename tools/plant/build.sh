#!/bin/bash
# Builds /tmp/rw offline: every target (libraries, binaries, tests, benches, examples)
# with the test features, then a check of the default features.
. /tmp/rwt/env.sh
cd /tmp/rw || exit 1
refresh_asm
cargo test --workspace --all-targets --no-run --offline --locked --features "$FEATURES" || exit 1
cargo check --workspace --offline --locked || exit 1
