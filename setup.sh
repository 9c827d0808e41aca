#!/bin/bash
# Builds every harness binary from the committed files and /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$HERE/target"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg ddverif"
mkdir -p "$HERE/evidence" "$CARGO_TARGET_DIR"
(cd "$HERE/harness" && cargo build --release --offline --bins --keep-going) || echo "WARNING: some harnesses did not build"
if [ -d "$HERE/harness2" ]; then (cd "$HERE/harness2" && cargo build --release --offline --bins --keep-going) || echo "WARNING: some harnesses did not build"; fi
(cd "$HERE/machine" && unset RUSTFLAGS RUSTUP_TOOLCHAIN && export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/machine" && cargo build --release --offline && cargo kani --lib --exact --harness proofs::presence) || echo "WARNING: the machine-integer harnesses did not build"
cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1 > "$CARGO_TARGET_DIR/.repo-sum"
