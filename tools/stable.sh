#!/bin/bash
# builds /repo, runs the tests and reports stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/stable.build 2>&1 || { tail -20 /tmp/stable.build; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/stable.json'))
m=sorted(set(b)-set(r['passed'])); print(len(b),'stable; missing:',m)
P
