#!/bin/bash
# seedrun.sh ID... : apply each seeded change to /repo, run its property's quick check, undo
for s in "$@"; do d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$s: patch does not apply"; continue; }
(cd /verif; timeout 900 python3 check.py $p quick > /tmp/seed-$s.log 2>&1; rc=$?; echo "$s $p exit=$rc $(grep -c ^VIOLATION /tmp/seed-$s.log) violations: $(grep -m1 '^  case' /tmp/seed-$s.log | cut -c1-160)")
git -C /repo checkout -- .; done
