#!/bin/bash
# run the repository's tests, report stable tests that do not pass
bash /opt/vp/test.sh /tmp/vp_o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/vp_o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); print('missing:', sorted(st-set(o['passed'])), len(o['passed']))
P
