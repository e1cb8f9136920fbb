#!/bin/bash
# Builds the analyser (offline, from vendored sources) into /verif/bin.
set -e
here=$(cd "$(dirname "$0")" && pwd)
for g in /opt/veriftools/go1.26.10 /opt/veriftools/go1.27.3; do
  if [ -x $g/bin/go ]; then export GOROOT=$g PATH=$g/bin:$PATH; break; fi
done
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=${HOME:-/root}
mkdir -p "$here/bin"
cd "$here/sa"
exec go build -o "$here/bin/sa" .
