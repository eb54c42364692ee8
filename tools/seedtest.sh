#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (build, tests, demo clean and patched)
W=/tmp/seedwork; mkdir -p $W
if [ ! -d $W/vp ]; then cp -a /opt/vp $W/vp; sed -i "s#/opt/vp#$W/vp#g; s#/repo#$W/repo#g" $W/vp/*.sh; fi
rsync -a --delete /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; cp -a /repo $W/repo; }
cd $W/repo
git checkout -q -- .
bash $W/vp/build.sh >$W/b.log 2>&1 || { echo "clean build fails"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  cp /verif/tools/rig/rig.py $d/ 2>/dev/null
  [ -f $d/demo.sh ] || printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh
  git checkout -q -- .; bash $W/vp/build.sh >$W/b.log 2>&1
  bash $d/demo.sh > $W/d0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash $W/vp/build.sh >$W/b.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 $W/b.log; continue; }
  bash $W/vp/test.sh $W/out.json >$W/t.log 2>&1
  t=$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=next(v for k,v in b.items() if isinstance(v,list) and len(v)>50)
print(len([x for x in st if x not in o['passed']]))")
  bash $d/demo.sh > $W/d1.log 2>&1; r1=$?
  echo "$id: demo clean=$r0 patched=$r1 stable tests failing=$t  | $(tail -1 $W/d0.log) | $(tail -1 $W/d1.log)"
done
git checkout -q -- .
