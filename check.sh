#!/bin/bash
# check.sh PROPERTY: decides one property by simulation, VERIF_TIER and VERIF_SEED as given.
# Exit 0 it held, 1 violation (with a VIOLATION line), anything else: no answer.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$verif
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_TIER=${VERIF_TIER:-quick}
bash "$verif/build.sh" || exit 2
exec "$verif/target/debug/simcheck" check "$1"
