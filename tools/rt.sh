#!/usr/bin/env bash
# build + baseline tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def norm(x):
    if isinstance(x,dict):
        for k in('passed','pass','stable','tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in(True,'pass','passed'))
    return set(x)
B,T=norm(b),norm(t)
print(len(B),len(T&B),'missing',sorted(B-T)[:10])
P
