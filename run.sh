#!/bin/bash
# usage: run.sh Cxx  - decides one property on /repo's current source
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >/dev/null || { echo "building the checker failed"; exit 2; }
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
exec "$here/bin/rdbcheck" -verif "$here" -repo "${RDB_REPO:-/repo}" -prop "$1"
