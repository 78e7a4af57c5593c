#!/bin/bash
# Builds the checker, offline, into bin/ (ignored by git)
cd "$(dirname "$0")" || exit 2
verif=$PWD
. /opt/vp/env.sh
mkdir -p bin || exit 2
cd checker && go build -o "$verif/bin/vc.$$" . && mv "$verif/bin/vc.$$" "$verif/bin/vc"
