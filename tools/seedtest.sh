#!/bin/bash
# seedtest.sh ID... : works in a scratch clone (/tmp/sr). Does the planted bug build and pass the stable tests, does the demo
# tell, and does the check of its property catch it? NOTEST=1 skips the tests, CHECKS="C01 C02" runs other checks.
[ -d /tmp/sr ] || git clone -q /repo /tmp/sr
git -C /tmp/sr fetch -q origin; git -C /tmp/sr reset -q --hard "$(git -C /repo rev-parse HEAD)"; git -C /tmp/sr clean -fdq -e _build
for ID in "$@"; do
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedXXXXXX)
mkdir $W/d; cp $D/* $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
cd /tmp/sr; git checkout -q -- .
timeout 300 bash $W/d/demo.sh >$W/clean.log 2>&1; c=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; continue; }
t=skipped
if [ -z "$NOTEST" ]; then
  cmake -S /tmp/sr -B /tmp/sr/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g" -DHeu_build_test=ON -DHeu_build_lab=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >$W/b.log 2>&1 && ninja -C _build >>$W/b.log 2>&1 || t=BUILDFAIL
  [ $t = skipped ] && t=$(OMP_NUM_THREADS=2 ctest --test-dir _build -j4 --timeout 300 2>&1 </dev/null | grep "tests passed" | cut -c1-60)
fi
timeout 300 bash $W/d/demo.sh >$W/bug.log 2>&1; b=$?
echo "$ID [$P] demo clean=$c bug=$b tests=$t"
[ $c -eq 0 ] || head -5 $W/clean.log | cut -c1-300
[ $b -ne 0 ] || head -5 $W/bug.log | cut -c1-300
cd /verif
for K in ${CHECKS:-$P}; do
  VERIF_REPO=/tmp/sr VERIF_SEED=1 timeout 900 python3 check.py $K >$W/chk.log 2>&1; r=$?
  k=$(grep -c "^VIOLATION property=$K " $W/chk.log)
  echo "   check $K rc=$r viol=$k  $(head -1 $W/chk.log | cut -c1-200)"
done
git -C /tmp/sr checkout -q -- .
rm -rf "$W"
done
