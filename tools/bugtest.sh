#!/bin/bash
# bugtest.sh ID [check ...]: confirm a planted bug in a private copy of /repo (own mount and network namespace), then run checks on it.
id=$1; shift
dir=/verif/seeded/$id
copy=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$copy/repo"
out=/tmp/bugout/$id; mkdir -p $out
git -C $copy/repo apply $dir/patch.diff || { echo "$id: patch does not apply"; rm -rf "$copy"; exit 1; }
# every removed line must be original
unshare -Urmn bash -c "
ip link set lo up; 
bash -c 'cd /repo && timeout 300 bash $dir/demo.sh' > $out/demo.clean 2>&1; echo demo-clean \$? > $out/rc
mount --bind $copy/repo /repo
(cd /repo && timeout 300 bash $dir/demo.sh) > $out/demo.bug 2>&1; echo demo-bug \$? >> $out/rc
for c in $*; do (cd /verif; VERIF_REPLAYS=/tmp/bugout/$id VERIF_EVIDENCE=$out timeout 900 /opt/venv/bin/python mc/check.py \$c > $out/\$c 2>&1; echo check \$c \$? \$(grep -c VIOLATION $out/\$c) >> $out/rc); done
if [ -z \"\$NOTEST\" ]; then
bash /opt/vp/build.sh > $out/build 2>&1 && bash /opt/vp/test.sh $out/t.json > $out/test.log 2>&1
fi
"
if [ -z "$NOTEST" ]; then
/opt/venv/bin/python - $out >> $out/rc <<'PY'
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
try:
  p=json.load(open(sys.argv[1]+'/t.json'))['passed']
  print("tests-missing",[t.split("::")[-1] for t in st if t not in p])
except Exception as e: print("tests",e)
PY
fi
echo "$id: $(tr '\n' ' ' < $out/rc)"
rm -rf "$copy"
