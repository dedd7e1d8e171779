#!/bin/bash
# runseeds.sh [ID...]: runs the check of each planted bug's property on a scratch copy with the bug applied.
cd /verif
for s in ${@:-$(ls seeded)}; do
  w=$(mktemp -d /tmp/sd.XXXX); git clone -q /repo $w/r; cp /repo/Cargo.lock $w/r/
  git -C $w/r apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  ./check.py $p --repo $w/r > /tmp/sd.out 2>&1; rc=$?
  echo "$s $p rc=$rc $(grep -h VIOLATION /tmp/sd.out | sed 's/replay=[^ ]*//') | $(grep -h 'contracts:' /tmp/sd.out | sed 's/.*failures/failures/' | cut -c1-150) | $(grep -h 'harness:' /tmp/sd.out| cut -c1-100)"
  h=$(python3 -c "import hashlib;print(hashlib.sha1(b'$w/r').hexdigest()[:8])")
  rm -rf $w /verif/build/harness-$h /verif/build/hcrate-$h /verif/build/run/$p-$h /verif/build/tool-$h
done
