#!/bin/bash
# Builds a small program against $PWD/crates/bitcoin and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="$HOME/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-2023-04-01 CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=warn RUSTC_WRAPPER=
s=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$s"' EXIT
cp -r "$here/." "$s/"; export CARGO_TARGET_DIR=$s/target
sed -i "s#@REPO@#$repo#" "$s/bitcoin/Cargo.toml"
cd "$s" && cargo run --offline -q -p demo 2>&1 | tail -20
exit ${PIPESTATUS[0]}
