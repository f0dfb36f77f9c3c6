#!/bin/bash
# seedtest.sh ID: apply the planted change to /repo, build, run the stable tests and the demo, and undo it
id=$1; d=/verif/seeded/$id
cd /repo || exit 9
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/sd.clean 2>&1; c=$?
git apply $d/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/sd.build 2>&1 || echo BUILD-FAILED
bash /opt/vp/test.sh /tmp/sd.json >/dev/null 2>&1
bash $d/demo.sh >/tmp/sd.bug 2>&1; b=$?
python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sd.json'))
def passed(d): 
    for k in ('passed','pass','stable_passed','stable'):
        if k in d: return set(d[k])
    return set(k for k,v in d.get('tests',d).items() if v in('passed','pass',True))
lost=passed(base)-passed(r)
print('$id demo clean',$c,'with bug',$b,'tests lost',len(lost),sorted(lost)[:3])
P
if [ "$2" = check ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); /verif/check.py $p 2>&1 | tail -4; fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
