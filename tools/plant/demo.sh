#!/bin/bash
# Builds main.rs against the built crate and runs it; check.py judges its output.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
L=$(ls -t target/debug/deps/librav1e-*.rlib 2>/dev/null | head -1)
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2021 --cap-lints allow -L dependency=target/debug/deps --extern rav1e="$L" "$D/main.rs" -o "$T/m" || exit 2
cd "$T" || exit 2
timeout 240 ./m out.bin || { echo "FAIL: program"; exit 1; }
if [ -f "$D/check.py" ]; then python3 "$D/check.py" out.bin || { echo "FAIL: check"; exit 1; }; fi
echo PASS
