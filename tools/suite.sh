#!/bin/bash
# build and test /repo, print stable tests that no longer pass
o=$(mktemp); bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-p); print('suite:', len(p), 'passed; missing', len(m), m[:6])
P
rm -f "$o"
