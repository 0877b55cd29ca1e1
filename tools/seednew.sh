#!/bin/bash
# usage: seednew.sh ID...
# For each /tmp/seeds/ID/{patch.diff,demo.rs|demo.sh,meta.json}: keeps the planted change under /verif/seeded
# if it builds in the scratch copy /tmp/sw, passes the tests there and its demonstration separates the two trees.
set -u
S=/tmp/sw
. /opt/vp/env.sh
export HOME=/root
cd $S
for ID in "$@"; do
  A=/tmp/seeds/$ID; D=/verif/seeded/$ID
  git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  [ -f $A/demo.sh ] || cp /verif/tools/seed/demo.sh $A/demo.sh
  bash $A/demo.sh > /tmp/sw.out.clean 2>&1; c=$?
  git apply $A/patch.diff || { echo "$ID: patch does not apply"; continue; }
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/sw.test.log 2>&1; trc=$?
  bash $A/demo.sh > /tmp/sw.out.patched 2>&1; p=$?
  git checkout -q -- .
  echo "$ID: tests rc=$trc $(grep -c '^test .* ok$' /tmp/sw.test.log) ok; demo clean=$c patched=$p; $(grep -v '^note' /tmp/sw.out.patched | tail -1 | cut -c1-150)"
  grep -E '^error|FAILED|panicked' /tmp/sw.test.log | head -5
  [ $c = 0 ] || tail -5 /tmp/sw.out.clean
  if [ $trc != 0 ] || [ $p = 0 ] || [ $c != 0 ] || grep -q "^error" /tmp/sw.out.patched; then echo "REJECTED $ID"; continue; fi
  mkdir -p $D; cp $A/* $D/
  echo "KEPT $ID"
done
