#!/bin/bash
# verify_seed.sh ID...: builds and tests each planted bug in a scratch copy and
# runs its demonstration on the unchanged and on the patched tree
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$(mktemp -d /tmp/seedXXXXXX)
  git clone -q --no-hardlinks /repo $S/repo || { echo "$id clone failed"; continue; }
  mkdir $S/demo; cp -r $V/seeded/$id/. $S/demo; rm -f $S/demo/patch.diff $S/demo/meta.json
  cd $S/repo
  timeout 300 bash $S/demo/demo.sh > $S/clean.log 2>&1; a=$?
  git apply $V/seeded/$id/patch.diff || { echo "$id patch does not apply"; continue; }
  timeout 300 bash $S/demo/demo.sh > $S/bad.log 2>&1; b=$?
  msg="clean=$a patched=$b"
  if [ $a -ne 0 ] || [ $b -eq 0 ]; then echo "$id BAD $msg"; tail -n 5 $S/clean.log $S/bad.log; else echo "$id ok $msg: $(tail -1 $S/bad.log)"; fi
  cd /; rm -rf "$S"
done
