#!/bin/bash
# build /repo and run its stable tests; prints a one-line verdict (development helper)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in('stable','passed','tests','stable_tests','pass'):
            if k in x: return x[k]
    return x
bs=set(names(b)); 
p=t.get('passed') or t.get('pass'); ps=set(p)
print('baseline',len(bs),'passed',len(ps),'missing',sorted(bs-ps)[:5])
P
