#!/bin/bash
# bash tools/try_seed.sh <seed id> [tests] [check ids...]: confirms a planted bug in a scratch copy and runs checks against it
ID=$1; shift
S=/verif/seeded/$ID; W=/tmp/sc-$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W && cd $W && git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf $W; exit 2; }
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1
(cd /repo && bash $S/demo.sh >/tmp/sc-$ID.demo0 2>&1); D0=$?
(export PYTHONPATH=$W; cd $W && bash $S/demo.sh >/tmp/sc-$ID.demo1 2>&1); D1=$?
echo "$ID ($P): demo clean=$D0 patched=$D1 $(tail -1 /tmp/sc-$ID.demo1 | cut -c1-150)"
if [ "$1" = tests ]; then
  shift
  (export PYTHONPATH=$W:/opt/vp/pyplugin; cd $W && timeout 600 /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -p vp_isolate -n 4 --timeout=300 --tb=line tests examples 2>&1 | tail -8 >/tmp/sc-$ID.tests)
  echo "$ID tests: $(grep -E 'passed|failed|^FAILED' /tmp/sc-$ID.tests | cut -c1-150 | tr '\n' ';')"
fi
cd /verif
for C in ${@:-$P}; do
  (export PYTHONPATH=$W:/verif; timeout 900 /opt/venv/bin/python -W ignore -m vlib.run $C >/tmp/sc-$ID.$C 2>&1); R=$?
  echo "$ID check $C: exit $R $(grep -m1 -E 'case [0-9]+:|VIOLATION' /tmp/sc-$ID.$C | cut -c1-220)"
done
rm -rf $W
