#!/bin/bash
# check.sh <ID>   (tier in VERIF_TIER, default quick)
# Builds the checker of one property against /repo's current working tree and runs it.
ID="$1"
DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$DIR" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET
export RUSTFLAGS="-A warnings"
export CARGO_TARGET_DIR="$DIR/target"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
mkdir -p "$DIR/replays" "$DIR/evidence"
cd "$DIR/harness" || exit 2
LOG="$DIR/target/build-$ID.log"
mkdir -p "$DIR/target"
# Never trust file times: when the contents differ from the last build, build again.
HASH="$(cd /repo && find src build Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
STAMP="$DIR/target/repo.hash"
if [ "$(cat "$STAMP" 2>/dev/null)" != "$HASH" ]; then
    for f in "$CARGO_TARGET_DIR"/debug/.fingerprint/rustful-*; do
        [ -d "$f" ] && rm -rf "$f"
    done
    rm -f "$STAMP"
fi
if ! cargo build --offline --locked --bin "$BIN" >"$LOG" 2>&1; then
    tail -40 "$LOG"
    echo "ERROR: the checker of $ID could not be built against /repo"
    exit 2
fi
echo "$HASH" >"$STAMP"
ulimit -c 0
ERR="$DIR/target/stderr-$ID.log"
timeout -k 5 880 "$CARGO_TARGET_DIR/debug/$BIN" 2>"$ERR"
RC=$?
case $RC in
    0|1) exit $RC ;;
    124|137) echo "ERROR: $ID ran out of time"; exit 2 ;;
esac
# The process died: memory unsafety, stack overflow, abort inside the code under test.
REPLAY="$DIR/replays/$ID-crash.txt"
{ echo "property: $ID"; echo "the checker process died with status $RC while running the code under test"; tail -20 "$ERR"; } >"$REPLAY"
echo "VIOLATION property=$ID replay=$REPLAY"
tail -5 "$ERR"
exit 1
