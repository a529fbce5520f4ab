#!/bin/bash
# run the repository's own unit tests of a pallet on the shims: t.sh <package>...
cd /verif/mc && . ./env.sh
for p in "$@"; do echo "=== $p"; CARGO_TARGET_DIR=/verif/target/t timeout 1500 cargo test -p $p --lib 2>&1 | grep -E '^error|^ *-->|FAILED|failed|panicked|test result' -A4| grep -v '^warning' | head -${N:-60}; done
