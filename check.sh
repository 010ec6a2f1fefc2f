#!/bin/bash
# check.sh ID: decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
newer=$(find "$here/checker" -name '*.go' -newer "$here/bin/checker" 2>/dev/null | head -1)
if [ ! -x "$here/bin/checker" ] || [ -n "$newer" ]; then
  bash "$here/setup.sh" || { echo "cannot build the checker" >&2; exit 2; }
fi
export VERIF_DIR=$here GOTOOLCHAIN=local GOPROXY=off GOWORK=off
exec "$here/bin/checker" -prop "$1"
