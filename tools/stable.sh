#!/bin/bash
# stable.sh ID...: do the repository's stable tests pass with the seeded change?
for id; do
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  bash /opt/vp/test.sh /tmp/stable.json > /tmp/stable.log 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); 
st=b['stable']; r=json.load(open('/tmp/stable.json')); p=set(r['passed'])
miss=[t for t in st if t not in p]
print(sys.argv[1],'OK' if not miss else 'BREAKS %d: %s'%(len(miss),miss[:5]))
P
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh > /dev/null 2>&1; rm -f /tmp/stable.json /tmp/stable.log
