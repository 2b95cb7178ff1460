"""Writes properties.jsonl and MANIFEST.json from the tables below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
P = []


def prop(id_, title, statement, over, text, why, files, mech, observe=(),
         state=(), check=None, na=None):
  assert len(title) <= 80, (id_, len(title))
  P.append((dict(id=id_, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(
                     files=files,
                     state=[dict(name=a, meaning=b, where=c)
                            for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)),
            check, na))


exec(open(os.path.join(HERE, "tools", "props.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
  for p, _, _ in P:
    f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, check, na in P:
  built = os.path.exists(
      os.path.join(HERE, "vsim", "checks", p["id"].lower() + ".py"))
  if na is None and built:
    cmd = f"/opt/venv/bin/python -B check.py {p['id']} "
    checks.append(dict(property=p["id"], quick_cmd=cmd + "quick",
                       thorough_cmd=cmd + "thorough", technique=T,
                       level="exploration", level_note=check))
  else:
    nas.append(dict(property=p["id"], reason=na or
                    "claimed once its simulated check is finished"))
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path[:0]="
                 "['/repo', '.']; import sample, vsim.runner\"",
    "hooks": {"guard": "VSIM_HOOKS",
              "enable": "no hook was needed: every seam is installed by the "
                        "simulator from outside the repository",
              "source_commits": []},
    "checks": checks, "not_applicable": nas},
          open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"),
          indent=1)
print(len(checks), "claimed", len(nas), "not applicable")
