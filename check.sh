#!/bin/bash
# check.sh <property> [quick|thorough]: builds the verifier if needed and decides one property on /repo's current tree
cd /verif || exit 2
. /opt/vp/env.sh 2>/dev/null || { export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false"; }
mkdir -p bin out evidence
if ! (cd govc && go build -o ../bin/govc . ); then
  echo "the verifier does not build"; exit 2
fi
exec bin/govc check "$1" "${2:-${VERIF_TIER:-quick}}"
