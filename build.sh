#!/bin/bash
# builds the checker from /verif/checker (offline) unless it is up to date
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
mkdir -p "$here/bin"
if [ -x "$here/bin/rdbcheck" ] && [ -z "$(find "$here/checker" -newer "$here/bin/rdbcheck" -name '*.go' -print -quit)" ]; then exit 0; fi
cd "$here/checker"
go build -o "$here/bin/rdbcheck.tmp.$$" . && mv "$here/bin/rdbcheck.tmp.$$" "$here/bin/rdbcheck"
