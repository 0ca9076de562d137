#!/bin/bash
# Builds the simulator together with /repo's current working tree, hooks on.
# Exit 0, or 2 when something does not build.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
repo=${QUIC_SEA_REPO:-/repo}
export CARGO_TARGET_DIR=$verif/target
export RUSTFLAGS="--cfg quic_sea_sim"
export CARGO_NET_OFFLINE=true
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
# cargo goes by modification times, which copying a tree may set back: go by content
stamp=$CARGO_TARGET_DIR/simcheck.stamp
now=$(cd "$repo" && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
    for d in "$CARGO_TARGET_DIR"/debug/.fingerprint/quic-sea-* "$CARGO_TARGET_DIR"/debug/.fingerprint/simcheck-*; do
        [ -e "$d" ] && rm -rf "$d"
    done
    rm -f "$stamp"
fi
log=$CARGO_TARGET_DIR/build.log
if ! (cd "$verif/sim" && cargo build --offline --locked) >"$log" 2>&1; then
    echo "the simulator does not build with the current tree:"
    grep -E "^error" -A 8 "$log" | head -60
    tail -5 "$log"
    exit 2
fi
echo "$now" >"$stamp"
exit 0
