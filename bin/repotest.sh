#!/bin/bash
# developer helper: build + test /repo, compare with the stable baseline
bash /opt/vp/build.sh >/tmp/repotest.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/repotest.build; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/tmp/repotest.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/repotest.json'))['passed'])
m=[x for x in b if x not in o]
print(len(b),'stable,',len(m),'missing',m); sys.exit(bool(m))
P
