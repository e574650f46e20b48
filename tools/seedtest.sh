#!/bin/bash
# seedtest.sh <seed id> [more checks]: validate one planted bug in a scratch copy of /repo and run its check against it
S=/verif/seeded/$1; W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo/. $W/
cd $W || exit 1
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/seedd.XXXXXX); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
bash $D/demo.sh >$D/out0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$1: PATCH DOES NOT APPLY"; rm -rf "$W" "$D"; exit 1; }
mkdir -p $D/cwd; cp -r $W/test/. $D/cwd/; find $D/cwd -name '*.py' -delete
(cd $D/cwd; PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 TZ=UTC PYTHONPATH=$W /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --rootdir=$W --no-header --tb=no -rA $W/test/test_cosem_pdu.py $W/test/test_overview.py $W/test/test_userfulType.py $W/test/test_version.py) > $D/t.out 2>&1
miss=$(python3 - "$D/t.out" <<'PY'
import json,sys,re
ok=set()
for l in open(sys.argv[1]):
    m=re.match(r'PASSED (\S+)',l)
    if m:
        f,c,t=m.group(1).split('::'); ok.add('test.'+f.split('/')[-1][:-3]+'.'+c+'::'+t)
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
print([s for s in st if s not in ok])
PY
)
bash $D/demo.sh >$D/out1 2>&1; r1=$?
cd /verif
for p in $prop "${@:2}"; do
out=$(DST_REPO=$W ./check.sh $p 2>&1); rc=$?
echo "$1: demo clean=$r0 patched=$r1 tests_missing=$miss check $p rc=$rc :: $(echo "$out" | grep -E 'violated|HARNESS|Error' | cut -c1-160 | head -2 | tr '\n' ' ')"
done
[ "$r0" != 0 ] && tail -3 $D/out0
rm -rf "$W" "$D"
