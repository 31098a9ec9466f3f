#!/bin/bash
# Runs the repository's stable tests; prints what is missing from the baseline.
bash /opt/vp/build.sh >/tmp/suite.build.log 2>&1; bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/suite.json'))
print('MISSING', set(b['stable'])-set(o['passed']))
P
