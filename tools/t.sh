#!/bin/bash
# run the repository's stable tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(d):
    for k in ('passed','stable','tests','pass'):
        if k in d: return set(d[k])
    return set(map(str,d))
print(sorted(b.keys())[:10], sorted(o.keys())[:10])
bb=names(b); oo=names(o)
print('missing from passed:', sorted(bb-oo)[:20], len(bb), len(oo))
P
