"""plant.py ID PROP FILE <<< JSON {"edits": [[file, old, new]], "needs":..., "breaks":..., "demo": python source}
Creates seeded/<ID>/ and verifies the demo with and without the patch in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys


def make(id_, prop, edits, needs, breaks, demo):
  root = f"/verif/seeded/{id_}"
  wt = "/tmp/wt_plant"
  if os.path.exists(wt):
    shutil.rmtree(wt)
  shutil.copytree("/repo", wt, symlinks=True)
  os.makedirs(root, exist_ok=True)
  with open(root + "/demo.sh", "w") as f:
    f.write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
            'MPLBACKEND=Agg\n'
            'exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  with open(root + "/demo.py", "w") as f:
    f.write(demo)
  r0 = subprocess.run(["sh", root + "/demo.sh"], cwd=wt, capture_output=True,
                      text=True)
  for file, old, new in edits:
    p = os.path.join(wt, file)
    s = open(p).read()
    assert s.count(old) == 1, (file, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
  diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True,
                        text=True).stdout
  assert diff
  open(root + "/patch.diff", "w").write(diff)
  r1 = subprocess.run(["sh", root + "/demo.sh"], cwd=wt, capture_output=True,
                      text=True)
  json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
            open(root + "/meta.json", "w"), indent=1)
  shutil.rmtree(wt)
  ok = r0.returncode == 0 and r1.returncode not in (0, 124)
  print(id_, "OK" if ok else "BAD", r0.returncode, r1.returncode,
        r1.stderr.strip().splitlines()[-1:] or r1.stdout[-200:])
  if not ok:
    print(r0.stdout[-1500:], r0.stderr[-1500:], "-----", r1.stdout[-1500:], r1.stderr[-1500:])
  return ok
