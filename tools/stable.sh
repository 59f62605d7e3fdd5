#!/bin/bash
# stable.sh DIR: runs the stable tests in DIR, prints passed/failed counts against the baseline.
d=$1; t=$(mktemp -d)
sed "s#cd /repo#cd $d#" /opt/vp/test.sh > $t/test.sh
sed -i "s#/opt/vp/results.py#$t/results.py#" $t/test.sh; cp /opt/vp/results.py $t/
timeout 400 bash $t/test.sh $t/out.json > $t/log 2>&1
tail -1 $t/log
rm -rf "$t"
