#!/bin/bash
# h.sh module harness : run one symbolic harness and summarise
cd /verif; H=$(mktemp); PYTHONPATH=/verif timeout 600 python3-vt -m engine.runner "$@" --out $H; python3 - $H <<'P'
import json, sys, shutil
d=json.load(open(sys.argv[1]))
shutil.copy(sys.argv[1], '/tmp/h.json')
print(d['harness'], d['status'], 'paths',d.get('paths'),'wall',d.get('wall_s'),d.get('backends'))
for k,o in d.get('obligations',{}).items(): print('   ',k,o)
for k,n in d.get('unsupported',{}).items(): print('  UNSUPPORTED',k,n)
for l in d.get('invariants',[]): print('  inv',l)
print('  contracts',d.get('contracts'))
for c in d.get('cex',[])[:2]: print('  CEX',json.dumps(c)[:1800])
if d.get('trace'): print(d['trace'][-900:])
P
/bin/rm -f $H
