#!/bin/bash
# dev helper: build /repo and run its tests against the baseline
bash /opt/vp/build.sh >/tmp/bl 2>&1 || { tail -20 /tmp/bl; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tl 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print("stable",len(b['stable']),"passed",len(t['passed']),"missing",m)
P
