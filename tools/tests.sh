#!/bin/bash
# Run the stable tests and report the ones that do not pass.
bash /opt/vp/test.sh /tmp/vp-out.json && python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp-out.json'))
miss=set(b['stable'])-set(o['passed'])
print('missing', len(miss)); print('\n'.join(sorted(miss)[:20]))
P
