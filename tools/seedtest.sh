#!/bin/bash
# seedtest.sh ID... : confirms planted bugs in a scratch copy: applies, builds, passes stable tests, demo 0 clean / nonzero patched; then runs the claimed check.
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
for id in "$@"; do
  s="$here/seeded/$id"; d=/tmp/seedrepo
  rm -rf /tmp/seedrepo /tmp/seeddemo; cp -a /repo $d; cp -a "$s" /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  ( cd $d && git apply "$s/patch.diff" ) || { echo "$id: patch does not apply"; continue; }
  ( cd $d && go build ./... ) || { echo "$id: build fails"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  mkdir -p /tmp/mv; cp "$here/known-findings.txt" /tmp/mv/
  "$here/bin/sigcheck" -prop $prop -repo $d -verif /tmp/mv > /tmp/seedcheck.txt 2>&1; c=$?
  rules=$(grep -o ': rule [a-z-]*' /tmp/seedcheck.txt | sort -u | tr '\n' ' ')
  if [ "$QUICK" ]; then echo "$id: check=$c $rules"; continue; fi
  ( cd /repo && timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/demo0.txt 2>&1 ); d0=$?
  ( cd $d && timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/demo1.txt 2>&1 ); d1=$?
  t=$(cd $d && REPO=$d bash "$here/tools/stable.sh" $d 2>&1 | tail -1)
  echo "$id: check=$c demo clean=$d0 patched=$d1 tests: $t $rules"
done
rm -rf /tmp/seedrepo /tmp/seeddemo
