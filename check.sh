#!/bin/bash
# check.sh <property>: rebuilds from /repo's working tree and decides one property.
# VERIF_SEED and VERIF_TIER choose the batch.
cd "$(dirname "$0")" || exit 2
[ "$1" = C17 ] && exec bash ./check-foreign.sh # machines that need no build of the fleet
bash ./build.sh || exit 2
export CHFSIM_ROOT=$PWD
exec ./target/sim/release/chfsim run "$1"
