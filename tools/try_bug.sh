#!/bin/bash
# try_bug.sh <id> [properties...]: confirm a planted bug (applies, builds, stable tests pass, demo flips) and run checks on it
id=$1; shift; d=/verif/seeded/$id
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
mkdir -p /tmp/demo_$$ && cp $d/* /tmp/demo_$$/ && rm -f /tmp/demo_$$/*.diff /tmp/demo_$$/meta.json
trap 'git -C /repo checkout -q -- .; rm -rf /tmp/demo_'$$ EXIT
bash /tmp/demo_$$/demo.sh >/tmp/demo_$$.log 2>&1; c=$?
git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh >/tmp/bug_build.log 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/bug_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bug_o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug_o.json'))
st=set(b['stable'] if 'stable' in b else b.get('tests',[]))
f=[t for t in o.get('failed',[]) if t in st or not st]
print('tests failed:',len(f),f[:5])
P
fi
bash /tmp/demo_$$/demo.sh >/tmp/demo_$$.log 2>&1; m=$?
echo "$id: demo clean=$c mutated=$m"
cd /verif; p=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for x in $p; do VERIF_SEED=1 python3 run.py $x quick > /tmp/bug_$id.$x.log 2>&1; echo "$id: $x exit $? $(grep -m1 '^  ' /tmp/bug_$id.$x.log | cut -c1-160)"; done
