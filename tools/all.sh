#!/bin/bash
# all.sh [Cxx ...]: run the quick checks one after another and summarise
cd /verif
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for c in "$@"; do
  python3 checks/run.py $c >/tmp/all.$c 2>&1; echo $c rc=$? $(grep discharged /tmp/all.$c)
  grep -E "VIOL|undecided:" /tmp/all.$c | head -3
done
