#!/bin/bash
# build+test, fail if baseline not all passed
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/out.json'))['passed'])
m=b-p
print("missing",m) if m else print("all",len(b),"ok")
sys.exit(1 if m else 0)
P
