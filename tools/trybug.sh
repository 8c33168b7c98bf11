#!/bin/bash
# trybug.sh ID [notests]: confirm a planted change in a scratch copy (patch applies, demo 0 without and !=0 with it, stable tests pass), then run its property's check against the copy
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/tb.XXXXXX); mkdir $W/repo $W/demo
cp -a /repo/. $W/repo/; cp $S/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $W/repo; git checkout -q -- .
demo(){ ( cd $W/repo; export PYTHONPATH=$W/repo MPLBACKEND=Agg NUMBA_CACHE_DIR=$(mktemp -d $W/nc.XXXX) DEMO_REPO=$W/repo; timeout 300 bash $W/demo/demo.sh ); }
demo > $W/base.log 2>&1; B=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
demo > $W/bug.log 2>&1; X=$?
echo "$ID ($P): demo base=$B patched=$X"; [ $B = 0 ] || tail -5 $W/base.log; tail -3 $W/bug.log | cut -c1-300
if [ "$2" != notests ]; then
 ( cd $W/repo/test; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/repo MPLBACKEND=Agg OMP_NUM_THREADS=1 NUMBA_CACHE_DIR=$W/ncc; 
 for f in "Pipedream-WQ_(Fig.10) Simple_network_analytical .py" "Pipedream-WQ_(Fig.11) Simple_network_analytical .py" "Pipedream-WQ_(Fig.13) Simple_network_analytical .py" simple_test_open_channel.py; do
  ( timeout 300 /opt/venv/bin/python "$f" > $W/t.log.$RANDOM 2>&1; echo "  test exit $? $f" ) & done; wait )
fi
cd /verif; python3 check.py $P --root $W/repo | tail -4 | cut -c1-300
rm -rf "$W"
