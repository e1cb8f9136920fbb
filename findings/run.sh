#!/bin/bash
# Runs the demonstrations of the defects found against /repo's working tree
# (documentation of the findings, no part of any check).
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
{
  echo '{"Replace":{'
  sep=
  for p in lnwire offers routes rpcserver onionmsg boltnd; do
    dir=/repo/$p; [ $p = boltnd ] && dir=/repo
    echo "$sep\"$dir/zz_finding_test.go\":\"$here/${p}_demo_test.go\""; sep=,
  done
  echo '}}'
} > $d/overlay.json
cd /repo && exec go test -overlay $d/overlay.json -vet=off -count=1 -tags=nolog -ldflags="$LD" -run 'TestFinding' ./... "$@"
