#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x,k):
    v=x.get(k,[]) if isinstance(x,dict) else x
    return set(v)
key=[k for k in b if isinstance(b[k],list)]
bs=set(b[key[0]]) if key else set(b)
op=set(o.get('passed',o.get('pass',[])))
print(len(bs),len(op),'missing',sorted(bs-op))
PY
