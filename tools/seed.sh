#!/bin/bash
# tools/seed.sh <seed-id>: confirm a planted change: builds, passes stable tests, demo fails with it and passes without
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt_$id
rm -rf "$W"; cp -a /repo "$W" || exit 2
cd "$W" || exit 2
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1
( cd /repo && PYTHONPATH=/repo bash "$S/demo.sh" >/tmp/seed_$id.clean 2>&1 ); a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 2; }
bash "$S/demo.sh" >/tmp/seed_$id.bug 2>&1; b=$?
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seed_$id.test.sh
bash /tmp/seed_$id.test.sh /tmp/seed_$id.json >/tmp/seed_$id.log 2>&1
python3 - "$id" $a $b <<'P'
import json,sys
id,a,b=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
base=json.load(open('/opt/vp/BASELINE.json')); res=json.load(open(f'/tmp/seed_{id}.json'))
def passed(d):
    for k in ('passed','stable','pass'):
        if k in d: return set(d[k])
    return {t for t,v in d.get('tests',d).items() if v in('pass','passed',True)}
miss=passed(base)-passed(res)
print(f"{id}: demo clean={a} bug={b} tests missing={len(miss)} {sorted(miss)[:5]}", "OK" if a==0 and b!=0 and not miss else "REJECT")
P
rm -rf "$W" /tmp/seed_$id.test.sh
