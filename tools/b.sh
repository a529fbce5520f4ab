#!/bin/bash
# build one checker crate and run the given properties: b.sh <crate> <id>...
. /verif/mc/env.sh; cd /verif/mc; c=$1; shift
cargo build --offline --release -p $c 2>&1 | grep -E "^error" -A7 | head -${ERR:-60}
[ ${PIPESTATUS[0]} = 0 ] || exit 3
cd /verif; for i in "$@"; do timeout ${T:-900} /verif/target/release/$c $i 2>&1 | cut -c1-${W:-1100}; done
