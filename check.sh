#!/bin/bash
# usage: check.sh ID [quick|thorough] [extra arguments for the harness]
# Rebuilds the harness for one property from /repo's working tree, and runs it.
# Exit 0: held on everything explored. Exit 1: VIOLATION printed. Anything else: error or undecided.
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-quick}"; shift 2 2>/dev/null
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$HERE/target"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg ddverif"
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
CRATE=harness; [ -f "$HERE/harness/src/bin/$BIN.rs" ] || CRATE=harness2
mkdir -p "$CARGO_TARGET_DIR"
# Cargo decides freshness by modification times; decide it by content instead, so that a tree
# restored with older timestamps is still rebuilt.
SUM="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" != "$SUM" ]; then
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 \( -name 'differential-*' -o -name 'interactive-*' -o -name 'ddverif*' \) -exec rm -rf {} + 2>/dev/null
    find "$CARGO_TARGET_DIR/machine" -path '*/.fingerprint/*' -prune \( -name 'differential-*' -o -name 'machine-*' \) -exec rm -rf {} + 2>/dev/null
    find "$CARGO_TARGET_DIR/machine/kani" -type d \( -name 'differential-dataflow' -o -name 'machine' \) -prune -exec rm -rf {} + 2>/dev/null
    echo "$SUM" > "$CARGO_TARGET_DIR/.repo-sum"
fi
LOG="$CARGO_TARGET_DIR/build-$BIN.log"
if ! (cd "$HERE/$CRATE" && cargo build --release --offline --bin "$BIN") >"$LOG" 2>&1; then
    tail -40 "$LOG"; echo "ERROR: the harness for $ID does not build against /repo"; exit 4
fi
BUDGET=560; [ "$TIER" = thorough ] && BUDGET=3000
# The bidirectional search prints its progress.
if [ "$BIN" = g01 ]; then
    "$CARGO_TARGET_DIR/release/$BIN" --tier "$TIER" --budget "${DDV_BUDGET:-$BUDGET}" --out "$HERE/evidence" "$@" | { grep -v -E '^(forward|reverse)(_next)?: ' || true; }
    exit "${PIPESTATUS[0]}"
fi
# Machine integers are decided by Kani, once the rest has held.
if [ $# -eq 0 ] && { [ "$BIN" = l01 ] || [ "$BIN" = d01 ] || [ "$BIN" = f01 ]; }; then
    "$CARGO_TARGET_DIR/release/$BIN" --tier "$TIER" --budget "${DDV_BUDGET:-$BUDGET}" --out "$HERE/evidence" || exit $?
    exec python3 "$HERE/tools/machine.py" "$ID" "$TIER" "$HERE"
fi
exec "$CARGO_TARGET_DIR/release/$BIN" --tier "$TIER" --budget "${DDV_BUDGET:-$BUDGET}" --out "$HERE/evidence" "$@"
