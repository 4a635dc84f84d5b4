#!/bin/bash
# builds the symbolic execution engine into /verif/bin and warms the build cache
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin
(cd engine && CGO_ENABLED=0 go build -o ../bin/symgo .) || exit 1
(cd /repo && CGO_ENABLED=0 go build ./... && CGO_ENABLED=0 go test -c -o /dev/null ./utils/bits) >/dev/null 2>&1
exit 0
