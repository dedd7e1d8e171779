#!/bin/bash
# dev helper: run.sh UNIT [verus args]
u=$1; shift
mkdir -p /verif/build/u; cd /verif/build/u
/verif/build/vx/release/vx --repo ${REPO:-/repo} --contracts /verif/contracts --unit $u --out $u.rs --map $u.json "${VXARGS[@]}" || exit 2
python3 - <<P
import json; m=json.load(open("$u.json"))
if m["lost"]: print("LOST", m["lost"])
for f in m["fns"]:
    if f["notes"]: print("NOTE", f["key"], f["notes"])
P
timeout 600 verus $u.rs --triggers-mode silent --rlimit ${RL:-30} "$@" 2>&1
