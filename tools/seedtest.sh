#!/bin/bash
# tools/seedtest.sh ID...: confirms planted bugs against /repo (demo clean, build, tests, demo broken, check)
cd /verif
T=/tmp/pvseedtest; mkdir -p $T
bash /opt/vp/build.sh >$T/build.log 2>&1 || { echo "clean build failed"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf $T/demo; cp -r $d $T/demo; rm -f $T/demo/patch.diff $T/demo/meta.json
  (cd /repo; bash $T/demo/demo.sh >$T/clean.out 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >$T/build.log 2>&1; then
    n=$(bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1; python3 -c "import json;print(len(json.load(open('$T/out.json'))['passed']))")
    (cd /repo; bash $T/demo/demo.sh >$T/broken.out 2>&1); b=$?
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    chk=$(python3 -c "
import json
print(next((c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$p'),'none'))")
    r=-; v=; 
    if [ "$chk" != none ] && [ -z "$NOCHECK" ]; then
      s=$(date +%s); $chk >$T/check.out 2>&1; r=$?; v=$(grep -c "VIOLATION property=$p" $T/check.out); v="$v violation lines, $(( $(date +%s)-s )) s"
      cp $T/check.out $T/$id.check.out
    fi
    echo "$id ($p): demo clean=$c broken=$b tests=$n check exit=$r $v"
    [ $c = 0 ] || tail -5 $T/clean.out
    [ $b != 0 ] || tail -3 $T/broken.out
  else
    echo "$id: build fails"; tail -5 $T/build.log
  fi
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >$T/build.log 2>&1
git -C /repo status --short
