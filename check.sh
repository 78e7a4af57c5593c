#!/bin/bash
# bash check.sh ID [quick|thorough]: decides one property from the current source of /repo
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export VERIF_DIR=$PWD
[ -x bin/vc ] && [ -z "$(find checker -name '*.go' -newer bin/vc)" ] || bash setup.sh || exit 2
exec bin/vc check "$1" "${2:-${VERIF_TIER:-quick}}"
