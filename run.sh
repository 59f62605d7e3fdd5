#!/bin/bash
# run.sh <property>[,<property>...]|build [tier]  -- builds the analyser from /verif/checker and runs it on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else
  export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
fi
mkdir -p bin
if ! (cd checker && GOFLAGS=-mod=readonly GOSUMDB=off go build -o ../bin/sigcheck . ) 2>bin/build.err; then
  cat bin/build.err >&2
  exit 2
fi
[ "$1" = build ] && exit 0
REPO="${SIGCHECK_REPO:-/repo}"
exec bin/sigcheck -prop "$1" -repo "$REPO" -verif "$here" -tier "${2:-${VERIF_TIER:-quick}}"
