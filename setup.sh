#!/bin/bash
# Builds every checker once (offline), so that the checks only rebuild what changed.
DIR="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$DIR/target"
mkdir -p "$DIR/replays" "$DIR/evidence" "$DIR/target"
cd "$DIR/harness" && cargo build --offline --locked --bins 2>&1 | tail -5
RC="${PIPESTATUS[0]}"
# the same stamp as check.sh: what has been built is this tree
[ "$RC" = 0 ] && (cd /repo && find src build Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum) >"$DIR/target/repo.hash"
exit "$RC"
