#!/bin/bash
# plant.sh ID : verify /verif/seeded/ID in scratch copy /tmp/w_ID
id=$1; w=/tmp/w_$id
rm -rf "/tmp/w_$id"; cp -a /repo $w
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
cd $w; git apply --check /verif/seeded/$id/patch.diff || { echo "NOAPPLY"; exit 1; }
demo=/tmp/demo_$id; rm -rf "$demo"; mkdir $demo; cp /verif/seeded/$id/* $demo/; rm -f $demo/patch.diff $demo/meta.json
timeout 300 bash $demo/demo.sh > /tmp/demo_$id.clean 2>&1; echo "$id demo clean rc=$?"
git apply /verif/seeded/$id/patch.diff
sed "s#/repo#$w#g" /opt/vp/check.py > /tmp/chk_$id.py; /opt/venv/bin/python -W ignore /tmp/chk_$id.py > /tmp/build_$id.log 2>&1; echo "$id build rc=$?"
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib --assert=plain --timeout=300 moving_mesh_transport/solver_classes/functions.py moving_mesh_transport/solver_classes/cubic_spline.py 2>&1 | tail -1
timeout 300 bash $demo/demo.sh > /tmp/demo_$id.bug 2>&1; echo "$id demo bug rc=$?"; tail -2 /tmp/demo_$id.bug
cd /verif
for c in ${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
  VERIF_SEED=1 VERIF_REPO=$w timeout 900 ./run.sh $c > /tmp/chk_$id.$c.log 2>&1; echo "$id check $c rc=$? $(grep -c VIOLATION /tmp/chk_$id.$c.log)"; tail -4 /tmp/chk_$id.$c.log | cut -c1-300
done
rm -rf "/tmp/w_$id" "$demo" /tmp/chk_$id.py
