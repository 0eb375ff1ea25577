#!/bin/bash
# Applies each seeded bug to /repo in turn, runs its property's check, undoes it, and records what the check answered.
cd /verif
for d in ${@:-seeded/*/}; do
  d=seeded/$(basename "$d")
  id=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/gvc check -prop "$id" -tier quick > /tmp/trybug.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$(basename $d) rc=$rc $(($(date +%s)-s))s $(grep VIOLATION /tmp/trybug.out)"
  python3 - "$(basename $d)" $rc <<'P'
import json,sys,re
f='/verif/tools/bugs.json'
try: r=json.load(open(f))
except Exception: r={}
o=open('/tmp/trybug.out').read()
m=re.search(r'VIOLATION property=\S+ replay=(\S+)(.*)',o)
if sys.argv[2]=='1' and m:
    ct=m[1].split('/')[-1][:-4]
    r[sys.argv[1]]='caught by '+ct+(' (no failing input found)' if 'no-failing' in m[2] else ' with a failing input')
else:
    r[sys.argv[1]]='missed'
json.dump(r,open(f,'w'),indent=1,sort_keys=True)
P
done
