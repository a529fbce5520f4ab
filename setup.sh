#!/bin/bash
# Builds every checker from the committed files and /repo's working tree (offline).
set -e
. /verif/mc/env.sh
cd /verif/mc
cargo build --offline --release --workspace 2>&1 | tail -5
exit ${PIPESTATUS[0]}
