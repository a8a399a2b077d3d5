#!/bin/bash
# bash /opt/vp/test.sh OUT.json
OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")
. /tmp/rwt/env.sh
cd /tmp/rw || exit 1
refresh_asm
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
# The tests leave their encodes in the temporary directory.
mkdir "$WORK/tmp"
JUNIT=/tmp/rw/target/nextest/vp/junit.xml
rm -f "$JUNIT" "$OUT"

# Unit and integration tests, with the #[ignore]d ones, as CI does.
TMPDIR="$WORK/tmp" cargo nextest run --workspace --lib --bins --tests --no-fail-fast \
  --offline --locked --features "$FEATURES" --run-ignored all \
  --tool-config-file vp:/opt/vp/nextest.toml --profile vp --user-config-file none
# Doc-tests.
TMPDIR="$WORK/tmp" timeout -k 5 120 cargo test --workspace --doc --no-fail-fast \
  --offline --locked --features "$FEATURES" -- --test-threads 8 > "$WORK/doc.log" 2>&1
cat "$WORK/doc.log"

python3 /opt/vp/results.py "$OUT" "junit:$JUNIT" "cargo:$WORK/doc.log"
