#!/bin/bash
# run the repository's stable tests and compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()}, list(b)[:5])
def s(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k] if isinstance(x[k],list) else x[k])
    return set()
print('missing:', sorted(s(b)-s(o))[:10])
PY
