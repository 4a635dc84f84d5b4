#!/bin/bash
# check.sh ID [tier]: decides property ID on /repo's current tree
cd "$(dirname "$0")" || exit 1
V=$PWD
. ./env.sh
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
B=$V/bin/symgo
if [ ! -x "$B" ] || [ -n "$(find engine -newer "$B" -name '*.go' -print -quit)" ]; then
  mkdir -p bin && (cd engine && CGO_ENABLED=0 go build -o "$B.$$" . && mv "$B.$$" "$B") || { echo "NOTE: engine did not build"; exit 2; }
fi
"$B" -verif "$V" -repo /repo -prop "$ID" -tier "$TIER"
