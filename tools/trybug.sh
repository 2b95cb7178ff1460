#!/bin/sh
# trybug.sh ID [PROP...]: apply a planted bug to /repo, run the checks, undo
id=$1; shift
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for p in ${@:-$prop}; do
  (cd /verif && /opt/venv/bin/python -B check.py $p quick 2>&1 | grep -E "^(violation|VIOLATION|HARNESS|$p|WARN|seed=)" | cut -c1-400); done
git -C /repo checkout -- .
