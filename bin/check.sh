#!/bin/sh
# check.sh <property> [quick|thorough]: decides one property on /repo's tree.
cd "$(dirname "$0")/.." || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
[ -x .build/engine ] || ./bin/setup.sh || exit 2
VF_VERIF=$(pwd) exec .build/engine check "$1"
