#!/bin/bash
# mutant.sh SLOT PATCH PROPERTY...: runs checks against a scratch copy of /repo with a patch
# (PATCH "-" for none, "-R:COMMIT" to revert a commit). For development; no check uses it.
set -u
slot=/tmp/mutant/$1; patch=$2; shift 2
mkdir -p "$slot"
rm -rf "$slot/repo" "$slot/sim"
mkdir "$slot/repo"
git -C /repo archive HEAD | tar -x -C "$slot/repo"
cp -a /repo/Cargo.lock "$slot/repo/" 2>/dev/null
cp -a /verif/sim "$slot/sim"
sed -i "s#\"/repo\"#\"$slot/repo\"#" "$slot/sim/Cargo.toml"
[ -d "$slot/target" ] || cp -a /verif/target "$slot/target"
case $patch in
    -) ;;
    -R:*) git -C /repo show "${patch#-R:}" | (cd "$slot/repo" && patch -R -p1 -s) || { echo "PATCH FAILS $patch"; exit 9; } ;;
    *) (cd "$slot/repo" && patch -p1 -s <"$patch") || { echo "PATCH FAILS $patch"; exit 9; } ;;
esac
cp /verif/known-findings.txt "$slot/" 2>/dev/null
find "$slot/repo/src" "$slot/sim/src" -type f -exec touch {} +
(cd "$slot/sim" && RUSTFLAGS="--cfg quic_sea_sim" CARGO_TARGET_DIR=$slot/target cargo build --offline >"$slot/build.log" 2>&1) || { echo "DOES NOT BUILD $patch"; grep -E "^error" -A8 "$slot/build.log" | head -30; exit 9; }
for p in "$@"; do
    VERIF_DIR=$slot VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick "$slot/target/debug/simcheck" check "$p" >"$slot/out.$p" 2>&1
    code=$?
    echo "${patch##*seeded/} $p exit $code $(grep -v VIOLATION "$slot/out.$p" | tail -1 | cut -c1-220)"
done
