#!/bin/bash
# bugs.sh [ID...]: applies seeded changes to a scratch worktree, one by one,
# and runs the check of their property against it.
W=/tmp/bugwt
git -C /repo worktree prune; rm -rf /tmp/bugwt
git -C /repo worktree add --detach $W HEAD > /dev/null 2>&1 || exit 3
cd /verif || exit 3
[ $# = 0 ] && set -- $(ls seeded)
root=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1)
for id; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if ! git -C $W apply /verif/seeded/$id/patch.diff 2> /dev/null; then echo "$id: does not apply"; continue; fi
  # lines of the original repository?
  mine=$(git -C $W diff -U0 | python3 -c "
import sys,re,subprocess
f=None;bad=0;n=0
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m[1]); c=int(m[2] or 1)
        if c==0: continue
        o=subprocess.run(['git','-C','$W','blame','-s','-l','HEAD','-L','%d,%d'%(a,a+c-1),'--',f],capture_output=True,text=True).stdout
        for x in o.splitlines():
            n+=1
            if x.lstrip('^')[:39]!='$root'[:39]: bad+=1
print('original lines: %d of %d'%(n-bad,n))")
  s=$(date +%s)
  VERIF_REPO=$W bash check.sh ${CHECK:-$p} > /tmp/bugwt.out 2>&1; rc=$?
  echo "$id: $p rc=$rc $(( $(date +%s) - s ))s ($mine) $(grep -m1 VIOLATION /tmp/bugwt.out)"
  git -C $W checkout -q -- .
done
git -C /repo worktree remove --force $W; rm -f /tmp/bugwt.out
