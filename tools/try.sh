#!/bin/bash
# try.sh ID [PROPERTY...]: applies seeded/ID to /repo, runs tests, demo and the checks (default: its property), undoes it
id=$1; shift
s=/verif/seeded/$id
props="$*"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo "dirty /repo"; exit 2; }
git apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/try.out.json >/tmp/try.log 2>&1
python3 - "$id" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/try.out.json'))
def passed(d):
    for k in ('stable','passed'):
        if k in d: return set(d[k])
    return set(k for k,v in d.items() if v in ('pass','passed',True))
p=passed(b); q=passed(o)
miss=p-q
print(sys.argv[1], 'tests:', 'OK' if not miss else 'FAIL %d of %d: %s'%(len(miss),len(p),sorted(miss)[:3]))
PY
bash "$s/demo.sh" >/tmp/try.demo 2>&1; rc=$?
grep -q '^error' /tmp/try.demo && echo "$id demo: COMPILE ERROR" 
echo "$id demo with patch: rc=$rc"
fi
for p in $props; do
  t0=$SECONDS
  bash /verif/check.sh $p >/tmp/try.chk 2>&1; rc=$?
  echo "$id check $p rc=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION' /tmp/try.chk) $(grep '^VIOLATION' /tmp/try.chk | head -1 | cut -c1-150)"
done
