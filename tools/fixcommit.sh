#!/bin/bash
# build, run the stable tests and commit in /repo as a fix
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x,k):
    v=x.get(k) if isinstance(x,dict) else None
    return v
st=b.get('stable') or b.get('passed') or b.get('tests') or b
ps=set(o.get('passed') or [])
miss=[t for t in st if t not in ps]
print("stable",len(st),"missing",miss[:10])
sys.exit(1 if miss else 0)
P
git -C /repo status --short
git -C /repo commit -qam "$1"; git -C /repo log --oneline | head -1
