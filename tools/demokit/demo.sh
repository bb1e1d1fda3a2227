#!/bin/bash
# runs demo.rs against the contracts of the current directory
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
# third-party crates are taken from the build; the workspace's own are built anew
OUT=$REPO/target/demo
if [ ! -d "$OUT/debug/deps" ] && [ -d "$REPO/target/debug/deps" ]; then
  mkdir -p "$OUT/debug/deps" "$OUT/debug/.fingerprint"
  find "$REPO/target/debug/deps" -maxdepth 1 -type f -not -name '*ibcx*' -exec cp -lt "$OUT/debug/deps" {} +
  find "$REPO/target/debug/.fingerprint" -maxdepth 1 -mindepth 1 -not -name 'ibcx*' -exec cp -at "$OUT/debug/.fingerprint" {} +
  cp -a "$REPO/target/debug/build" "$OUT/debug/"
fi
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE"/chain.rs "$HERE"/weighted.rs "$HERE"/kit.rs "$T/src/"
cp "$HERE/demo.rs" "$T/src/main.rs"
sed "s#@REPO@#$REPO#" "$HERE/crate.tpl" > "$T/Cargo.toml"
cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cd "$T" && CARGO_TARGET_DIR="$OUT" cargo run --offline --quiet
