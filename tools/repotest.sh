#!/bin/bash
# Build /repo and run its stable tests; print anything that does not pass.
out=$(mktemp)
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILED"
(cd /repo && bash /opt/vp/test.sh "$out" >/dev/null 2>&1)
python3 - "$out" <<'PY'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','passes','pass','stable'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return None
b=names(base); r=names(res)
print('baseline',len(b or []),'passed now',len(r or []),'missing',sorted((b or set())-(r or set()))[:20], '' if b and r else (list(base)[:5],list(res)[:5]))
PY
rm -f "$out"
