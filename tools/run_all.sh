#!/bin/bash
# runall.sh <repo> <seed> [props]
repo=$1; seed=$2; shift 2
rm -rf /tmp/vcopy.$$; cp -a /verif /tmp/vcopy.$$; cd /tmp/vcopy.$$
for x in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30}; do
grep -q "\"$x\"" MANIFEST.json || continue
GCEM_REPO=$repo VERIF_SEED=$seed python3 run.py $x quick > out.log 2>&1; r=$?
echo "$x seed=$seed exit=$r $(grep -m1 'evaluations' out.log)"; [ $r != 0 ] && { grep '^  ' out.log | cut -c1-250; }
grep '^note' out.log | head -3
done; rm -rf /tmp/vcopy.$$
