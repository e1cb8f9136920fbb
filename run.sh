#!/bin/bash
# run.sh ID [quick|thorough]: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
if [ ! -x "$here/bin/sa" ] || [ -n "$(find "$here/sa" -maxdepth 1 -newer "$here/bin/sa" -name '*.go' -print -quit)" ]; then
  bash "$here/build.sh" || exit 2
fi
exec "$here/bin/sa" "$1" "${2:-quick}"
