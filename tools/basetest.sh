#!/bin/bash
# run repo tests and compare with the stable list (helper, not a check)
D=$(mktemp -d); bash /opt/vp/build.sh >$D/b 2>&1 || echo BUILD-FAIL
bash /opt/vp/test.sh $D/o.json >$D/t 2>&1
python3 - $D/o.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=set(b['stable']) if not isinstance(b['stable'],dict) else set(b['stable'])
p=set(o['passed']); miss=sorted(st-p)
print("stable",len(st),"passed",len(p),"missing",miss[:10], "new", sorted(p-st)[:10])
sys.exit(1 if miss else 0)
PY
rc=$?; rm -r $D; exit $rc
