#!/bin/bash
# run.sh <checker crate> <property id>: rebuild the checker from /repo's current tree, then run it.
. /verif/mc/env.sh
cd /verif/mc || exit 3
export MOCKTOPUS=1
log=$(mktemp /tmp/mcbuild.XXXXXX)
if ! cargo build --offline --release --workspace --bin "$1" >"$log" 2>&1; then
    grep -E "^(error|warning: unused)" -A6 "$log" | head -60 >&2; tail -5 "$log" >&2; rm -f "$log"; exit 3
fi
echo "built in ${SECONDS} s: $(grep -c Compiling "$log") crates" >&2
rm -f "$log"
cd /verif
exec /verif/target/release/"$1" "$2"
